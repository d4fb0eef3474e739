From 14adf6c6b9d88eb4626a0814a7407dcbe6fe254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 01/84] fix: refuse decompositions leaving one cell per process
 in an active direction

---
 alsfvm/src/mpi/domain/CartesianDecomposition.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
index 1242418..267bc7f 100644
--- a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
+++ b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
@@ -55,6 +55,15 @@ DomainInformationPtr CartesianDecomposition::decompose(ConfigurationPtr
                 << "\tnumberOfProcessors assigned: " << numberOfProcessors[i] << "\n"
                 << "\tnumberOfCells assigned      : " << dimensions[i] << "\n");
         }
+
+        // A single cell in the y or z direction marks that direction as unused,
+        // the local grid would then be treated as one of lower dimension.
+        if (i > 0 && dimensions[i] > 1 && dimensions[i] == numberOfProcessors[i]) {
+            THROW("Error in domain decompositon. In direction " << i << "\n"
+                << "\tnumberOfProcessors assigned: " << numberOfProcessors[i] << "\n"
+                << "\tnumberOfCells assigned      : " << dimensions[i] << "\n"
+                << "\tWe need at least two cells per processor in this direction.\n");
+        }
     }
 
 
-- 
2.43.0


From fdc8f20229ccb5b62dd04d2833143f5dca3e02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 02/84] fix: refuse grids narrower than the ghost layer when
 applying boundary conditions

---
 alsfvm/src/boundary/BoundaryCPU.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/boundary/BoundaryCPU.cpp b/alsfvm/src/boundary/BoundaryCPU.cpp
index 57d95ad..8d72840 100644
--- a/alsfvm/src/boundary/BoundaryCPU.cpp
+++ b/alsfvm/src/boundary/BoundaryCPU.cpp
@@ -35,14 +35,15 @@ void applyBoundary(volume::Volume& volume, const size_t dimensions,
     const size_t ny = volume.getTotalNumberOfYCells();
     const size_t nz = volume.getTotalNumberOfZCells();
 
-    if (nx < 2 * numberOfGhostCells || ((dimensions > 1)
-            && ny < 2 * numberOfGhostCells) || ((dimensions > 2)
-            && nz < 2 * numberOfGhostCells) ) {
+    // The sizes here include the ghost cells on both sides
+    if (nx < 3 * numberOfGhostCells || ((dimensions > 1)
+            && ny < 3 * numberOfGhostCells) || ((dimensions > 2)
+            && nz < 3 * numberOfGhostCells) ) {
         THROW("Too few cells to apply boundary condition. We got (nx, ny, nz)=("
             << nx << ", " << ny << ", " << nz << "), but numberOfGhostCells = " <<
             numberOfGhostCells
             << std::endl << std::endl <<
-            "We require at least double the number of cells in each direction");
+            "We require at least numberOfGhostCells interior cells in each direction");
     }
 
     // We need these two assertions for this to work (else we need fancier indexing)
-- 
2.43.0


From f8ba16b0667d77505124bd3fec98c0251a560646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 03/84] fix: check the constraints of the interior cells only

The corner ghost cells are read by no scheme and are not kept up to date, so
what they hold must not end a run whose solution is fine.
---
 alsfvm/include/alsfvm/volume/volume_foreach.hpp | 10 ++++++++--
 alsfvm/src/equation/CPUCellComputer.cpp         |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/volume_foreach.hpp b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
index 67c506d..03aa9c3 100644
--- a/alsfvm/include/alsfvm/volume/volume_foreach.hpp
+++ b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
@@ -286,10 +286,16 @@ inline void transform_volume(const Volume& in, Volume& out,
 ///    // Do something with in or index
 /// });
 /// \endcode
+/// \param in the volume to loop over
+/// \param function the function to call
+/// \param offsetStart the triple deciding the starting index
+/// \param offsetEnd the offset for end (must be non-negative!)
 ///
 template<class VariableStruct>
 inline void for_each_cell(const Volume& in,
-    const std::function<void(const VariableStruct&, size_t index)>& function) {
+    const std::function<void(const VariableStruct&, size_t index)>& function,
+    ivec3 offsetStart = {0, 0, 0},
+    ivec3 offsetEnd = {0, 0, 0}) {
     std::array < const real*, sizeof(VariableStruct) / sizeof(real) > pointersIn;
     pointersIn.fill(nullptr);
 
@@ -304,7 +310,7 @@ inline void for_each_cell(const Volume& in,
 
     for_each_cell_index(in, [&](size_t index) {
         function(expandVariableStruct<VariableStruct>(pointersIn, index), index);
-    });
+    }, offsetStart, offsetEnd);
 }
 
 ///
diff --git a/alsfvm/src/equation/CPUCellComputer.cpp b/alsfvm/src/equation/CPUCellComputer.cpp
index 86147d3..b2c7b30 100644
--- a/alsfvm/src/equation/CPUCellComputer.cpp
+++ b/alsfvm/src/equation/CPUCellComputer.cpp
@@ -83,6 +83,12 @@ bool CPUCellComputer<Equation>::obeysConstraints(const volume::Volume&
     bool obeys = true;
     Equation eq(parameters);
 
+    // The ghost cells are not part of the solution. Those that no scheme reads
+    // (eg. the corners) are never updated with anything meaningful.
+    const ivec3 ghostCells(conservedVariables.getNumberOfXGhostCells(),
+        conservedVariables.getNumberOfYGhostCells(),
+        conservedVariables.getNumberOfZGhostCells());
+
     volume::for_each_cell<typename Equation::ConservedVariables>(conservedVariables,
         [&obeys,
             &eq](const typename Equation::ConservedVariables & conserved,
@@ -119,7 +125,7 @@ bool CPUCellComputer<Equation>::obeysConstraints(const volume::Volume&
             std::cerr << "Does not obey constraint at" << index << std::endl;
             obeys = false;
         }
-    });
+    }, ghostCells, ghostCells);
 
     return obeys;
 }
-- 
2.43.0


From 39afb231e23c7314fac6e2d5476159cbf8755009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 04/84] fix: compute the entropy variables at the last face in
 the diffusion operators

The last interior cell reads the face between the first and the second ghost
cell, which was left at whatever the buffer contained.
---
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index ef83a80..6faf56e 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -61,7 +61,9 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         equation.setViewAt(entropyRightView, leftIndex,
             RT * equation.computeEntropyVariables(conservedValuesLeft));
 
-    }, make_direction_vector(direction), make_direction_vector(direction));
+    // The last face is needed too: it belongs to the stencil of the last
+    // interior cell when there are no more ghost cells than needed
+    }, make_direction_vector(direction));
 
 
 
-- 
2.43.0


From 4ed514a295e17b785e5bbbe5b9ad4cd3ed6b7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 05/84] fix: compute every divided difference the entropy
 variable ENO stencils use

---
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index 0cf6b86..a8c07e2 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -211,13 +211,13 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>&
     assert(ny > 2 * direction.y * level);
     assert(nz > 2 * direction.z * level);
 
-    const size_t startX = direction.x * level;
-    const size_t startY = direction.y * level;
-    const size_t startZ = direction.z * level;
+    const size_t startX = direction.x;
+    const size_t startY = direction.y;
+    const size_t startZ = direction.z;
 
-    const size_t endX = nx - direction.x * level;
-    const size_t endY = ny - direction.y * level;
-    const size_t endZ = nz - direction.z * level;
+    const size_t endX = nx - direction.x * (level - 1);
+    const size_t endY = ny - direction.y * (level - 1);
+    const size_t endZ = nz - direction.z * (level - 1);
 
     auto leftView = leftInput.getView();
     auto rightView = rightInput.getView();
-- 
2.43.0


From 41999450bc86b071500b8df68f7e98ce1cd95417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 06/84] fix: step along the right direction in the entropy
 variable ENO reconstruction

The neighbours' values were always taken along x.
---
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index a8c07e2..1deef22 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -91,6 +91,10 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
         const size_t endY = ny - directionVector.y * (order - 1);
         const size_t endZ = nz - directionVector.z * (order - 1);
 
+        // Distance in memory between neighbours in the given direction
+        const size_t stride = directionVector.x + directionVector.y * nx +
+            directionVector.z * nx * ny;
+
         std::array < real*, order - 1 > dividedDifferencesPointers;
 
         for (size_t i = 0; i < order - 1; i++) {
@@ -149,9 +153,9 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
 
                     for (int l = 0; l < order - 1; ++l) {
                         wCur[order + l]   = wCur[order + l - 1] +
-                            dividedDifferencesPointers[0][indexRight + l];
+                            dividedDifferencesPointers[0][indexRight + l * stride];
                         wCur[order - l - 2] = wCur[order - l - 1] -
-                            dividedDifferencesPointers[0][indexRight - l - 1];
+                            dividedDifferencesPointers[0][indexRight - (l + 1) * stride];
                     }
 
                     // Calculate wlR, wrR
-- 
2.43.0


From 2103826c57fde1a41a3ac7b827bb83ac92cb2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 07/84] fix: extend the stencil chosen so far in the ENO
 reconstructions

Each level compared the differences around the cell itself, not those which
extend the stencil the previous levels chose, so orders three and four could
pick a stencil across a jump.
---
 alsfvm/src/reconstruction/ENOCPU.cpp       | 17 ++++++++++++-----
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp |  7 +++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/alsfvm/src/reconstruction/ENOCPU.cpp b/alsfvm/src/reconstruction/ENOCPU.cpp
index 55e1b51..3194419 100644
--- a/alsfvm/src/reconstruction/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/ENOCPU.cpp
@@ -97,6 +97,10 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
     const int endY = ny - (ny > 1) * (order - directionVector.y) + end.y;
     const int endZ = nz - (nz > 1) * (order - directionVector.z) + end.z;
 
+    // Distance in memory between neighbours in the given direction
+    const int stride = directionVector.x + directionVector.y * nx +
+        directionVector.z * nx * ny;
+
     std::array < real*, order - 1 > dividedDifferencesPointers;
 
     for (size_t i = 0; i < order - 1; i++) {
@@ -138,11 +142,14 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
                     // First we determine the shift
                     // We do this by looping through the levels of the divided
                     // differences, and each time we go left, we increment the shift.
+                    // The candidates of a level extend the stencil chosen so far.
                     int shift = 0;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight -
+                                                   shift * stride];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft -
+                                                   shift * stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -221,11 +228,11 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>& input,
     assert(ny > int(2 * direction.y * level));
     assert(nz > int(2 * direction.z * level));
 
-    const int startX =        (direction.x == 0) * order + direction.x * level +
+    const int startX =        (direction.x == 0) * order + direction.x +
         start.x;
-    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y * level +
+    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y +
         start.y;
-    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z * level +
+    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z +
         start.z;
 
     const int endX = nx -        ((direction.x == 0) * (order - 1) + direction.x *
diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index 1deef22..572b0b3 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -128,11 +128,14 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
                     // First we determine the shift
                     // We do this by looping through the levels of the divided
                     // differences, and each time we go left, we increment the shift.
+                    // The candidates of a level extend the stencil chosen so far.
                     int shift = 0;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight -
+                                                   shift * stride];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft -
+                                                   shift * stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
-- 
2.43.0


From 57848cbd8b8e9d315fd480252807b619d5106852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 08/84] fix: scale the flux differences by the cell length of
 their direction

The integrators scale with dt/dx for all directions, so grids whose cells are
not cubes were advanced with the wrong fluxes in the y and z directions.
---
 alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp |  2 ++
 alsfvm/src/numflux/NumericalFluxCPU.cpp            | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
index aca52e8..98c094b 100644
--- a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
+++ b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
@@ -80,6 +80,8 @@ private:
     alsfvm::shared_ptr<volume::Volume> temporaryVolume;
 
     typename Equation::Parameters parameters;
+
+    const rvec3 cellLengths;
 };
 
 } // namespace alsfvm
diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index eb0b084..dd25b7b 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -35,6 +35,7 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
     volume::Volume& out,
     volume::Volume& temporaryVolume,
     real& waveSpeed, size_t numberOfGhostCells,
+    const real scaling,
     const ivec3 start, const ivec3 end) {
 
     ALSVINN_TIME_BLOCK(alsvinn, fvm, numflux);
@@ -110,7 +111,8 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
                 auto fluxLeftMiddle = (-1.0) * eq.fetchConservedVariables(temporaryViews,
                         middleIndex);
 
-                eq.addToViewAt(outViews, rightIndex, fluxMiddleRight + fluxLeftMiddle);
+                eq.addToViewAt(outViews, rightIndex,
+                    scaling * (fluxMiddleRight + fluxLeftMiddle));
 
             }
         }
@@ -155,7 +157,8 @@ NumericalFluxCPU<Flux, Equation, dimension>::NumericalFluxCPU(
           alsfvm::make_shared<memory::MemoryFactory>(deviceConfiguration)),
       reconstruction(reconstruction),
       parameters(static_cast<typename Equation::Parameters&>
-          (simulatorParameters->getEquationParameters())) {
+          (simulatorParameters->getEquationParameters())),
+      cellLengths(grid.getCellLengths()) {
     static_assert(dimension > 0, "We only support positive dimension!");
     static_assert(dimension < 4, "We only support dimension up to 3");
 
@@ -197,14 +200,17 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         *left, *right, start, end);
     computeNetFlux<Flux, Equation, 0>(eq, *left, *right, output,
         *temporaryVolume, waveSpeed.x,
-        getNumberOfGhostCells(), start, end);
+        getNumberOfGhostCells(), 1.0, start, end);
 
+    // The integrators divide by the cell length in the x direction, hence we
+    // need to rescale the other directions.
     if (dimension > 1) {
         reconstruction->performReconstruction(conservedVariables, 1, 0,
             *left, *right, start, end);
         computeNetFlux<Flux, Equation, 1>(eq, *left, *right, output,
             *temporaryVolume,
             waveSpeed.y, getNumberOfGhostCells(),
+            cellLengths.x / cellLengths.y,
             start, end);
     }
 
@@ -215,6 +221,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         computeNetFlux<Flux, Equation, 2>(eq, *left, *right, output,
             *temporaryVolume, waveSpeed.z,
             getNumberOfGhostCells(),
+            cellLengths.x / cellLengths.z,
             start, end);
     }
 
-- 
2.43.0


From 9af15fc18a1ba318255063d2bc5fb3f9cdccd139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 09/84] fix: scale the diffusion by the cell length of its
 direction

The same as for the numerical flux: the integrators only know the cell length
in the x direction.
---
 .../alsfvm/diffusion/TecnoDiffusionCPU.hpp    |  6 +++++-
 alsfvm/src/diffusion/DiffusionFactory.cpp     | 16 +++++++--------
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp    | 20 +++++++++++--------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
index 5163c27..8f1a48c 100644
--- a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
+++ b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
@@ -16,6 +16,7 @@
 #pragma once
 #include "alsfvm/diffusion/DiffusionOperator.hpp"
 #include "alsfvm/volume/VolumeFactory.hpp"
+#include "alsfvm/grid/Grid.hpp"
 #include "alsfvm/simulator/SimulatorParameters.hpp"
 #include "alsfvm/reconstruction/tecno/ReconstructionFactory.hpp"
 
@@ -42,7 +43,8 @@ public:
 
     TecnoDiffusionCPU(volume::VolumeFactory& volumeFactory,
         alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-        const simulator::SimulatorParameters& simulatorParameters);
+        const simulator::SimulatorParameters& simulatorParameters,
+        const grid::Grid& grid);
 
     ///
     /// Applies numerical diffusion to the outputVolume given the data in conservedVolume.
@@ -78,6 +80,8 @@ private:
     alsfvm::shared_ptr<volume::Volume> entropyVariablesRight;
 
     Equation equation;
+
+    const rvec3 cellLengths;
 };
 } // namespace diffusion
 } // namespace alsfvm
diff --git a/alsfvm/src/diffusion/DiffusionFactory.cpp b/alsfvm/src/diffusion/DiffusionFactory.cpp
index 721f2d2..973aae2 100644
--- a/alsfvm/src/diffusion/DiffusionFactory.cpp
+++ b/alsfvm/src/diffusion/DiffusionFactory.cpp
@@ -53,11 +53,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -66,11 +66,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -79,11 +79,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -92,11 +92,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index 6faf56e..8b3e24e 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -31,7 +31,8 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
     volume::Volume& left, volume::Volume& right,
     volume::Volume& entropyVariablesLeft,
     volume::Volume& entropyVariablesRight,
-    const volume::Volume& conservedVolume) {
+    const volume::Volume& conservedVolume,
+    const real scaling) {
 
     typename Equation::Views entropyLeftView(entropyVariablesLeft);
     typename Equation::Views entropyRightView(entropyVariablesRight);
@@ -94,8 +95,9 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         };
 
         //outFile << (diffusion(middleIndex, rightIndex) - diffusion(leftIndex, middleIndex))[1] << std::endl;
-        equation.addToViewAt(outputView, middleIndexOuter, diffusion(middleIndexOuter,
-                rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter));
+        equation.addToViewAt(outputView, middleIndexOuter,
+            scaling * (diffusion(middleIndexOuter,
+                    rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter)));
     }, make_direction_vector(direction), make_direction_vector(direction));
 
 }
@@ -104,13 +106,15 @@ template<class Equation, template<class, int> class DiffusionMatrix>
 TecnoDiffusionCPU<Equation, DiffusionMatrix>::TecnoDiffusionCPU(
     volume::VolumeFactory& volumeFactory,
     alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-    const simulator::SimulatorParameters& simulatorParameters)
+    const simulator::SimulatorParameters& simulatorParameters,
+    const grid::Grid& grid)
 
     :
     volumeFactory(volumeFactory),
     reconstruction(reconstruction),
     equation(static_cast<const typename Equation::Parameters&>
-        (simulatorParameters.getEquationParameters())) {
+        (simulatorParameters.getEquationParameters())),
+    cellLengths(grid.getCellLengths()) {
     // empty
 }
 
@@ -148,21 +152,21 @@ void TecnoDiffusionCPU<Equation, DiffusionMatrix>::applyDiffusion(
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, 1.0);
         } else if (direction == 1) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 1>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, cellLengths.x / cellLengths.y);
         } else if (direction == 2) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 2>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, cellLengths.x / cellLengths.z);
         }
     }
 
-- 
2.43.0


From 42049e1e89fe7715e17f996cdf24c443f58f2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 10/84] fix: HLL and HLL3 use the left flux when the slowest
 wave stands still

---
 alsfvm/include/alsfvm/numflux/euler/HLL.hpp  | 4 +---
 alsfvm/include/alsfvm/numflux/euler/HLL3.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
index d196970..2d6f671 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
@@ -60,9 +60,7 @@ public:
 
         computeHLLSpeeds<direction>(eq, left, right, speedLeft, speedRight);
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             eq.template computePointFlux<direction>(left, F);
         } else if (speedRight < 0) {
             eq.template computePointFlux<direction>(right, F);
diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
index 9639dba..1fc0b3c 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
@@ -79,9 +79,7 @@ public:
                 left.m ) / aa;
         us[direction] = sm;
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             F = fluxLeft;
         } else if (speedRight < 0) {
             F = fluxRight;
-- 
2.43.0


From 0cdb3967bcf36f2e7b396a1efb8c5f69b8222f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 11/84] fix: the linear Roe flux upwinds negative values too

---
 alsfvm/include/alsfvm/numflux/linear/Roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
index d9891ff..720d69b 100644
--- a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
+++ b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
@@ -43,7 +43,7 @@ public:
 
 
         ConservedVariables fluxLeft;
-        eq.computePointFlux<direction>(AllVariables(fmax(left.u, real(0.0))), fluxLeft);
+        eq.computePointFlux<direction>(left, fluxLeft);
         F = fluxLeft;
 
         // This looks a bit weird, but it is OK. The basic principle is that AllVariables
-- 
2.43.0


From 0853639fea2ef34b75621107c0eb3d8f631c96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 12/84] fix: the logarithmic mean of two equal values is that
 value

---
 alsfvm/include/alsfvm/numflux/tecno_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
index 33c3a5d..52ae90d 100644
--- a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
+++ b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
@@ -28,7 +28,8 @@ inline __device__ __host__ real diff(real left, real right) {
 }
 inline __device__ __host__ real ln(real left, real right) {
     if (diff(left, right) == 0 || diff(log(left), log(right)) == 0) {
-        return 0;
+        // The logarithmic mean of two equal values is that value
+        return left;
     }
 
     return diff(left, right) / diff(log(left), log(right));
-- 
2.43.0


From 64af83be2e43128c476d11e4b42fd641360d67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 13/84] fix: compute the third direction of the
 three-dimensional Tecno1 flux

---
 .../include/alsfvm/numflux/euler/Tecno1.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
index 19706ad..5f8d2d3 100644
--- a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
@@ -67,19 +67,31 @@ __device__ __host__ inline  real Tecno1<3>::computeFlux(
         F[1] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[1],
                 rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     } else  if (direction == 1) {
         F[0] = bar(leftZ[2], rightZ[2]) * ln(leftZ[4], rightZ[4]);
         F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[2],
                 rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
+    } else  if (direction == 2) {
+        F[0] = bar(leftZ[3], rightZ[3]) * ln(leftZ[4], rightZ[4]);
+        F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[3] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[3],
+                rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[4] = 1.0 / (2 * bar(leftZ[0],
+                    rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     }
 
     real leftSpeed = 0, rightSpeed = 0;
-- 
2.43.0


From 845f76ac349d9b9e4744fdeaf4646b3364766171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 14/84] fix: rotate the eigenvectors of the Euler equations
 back to the direction asked for

---
 alsfvm/include/alsfvm/equation/euler/Euler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index d252918..672f430 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -460,6 +460,13 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
         matrixWithEigenVectors(4, 3) = primitive.u.z;
         matrixWithEigenVectors(4, 4) = H + primitive.u.x * a;
 
+        // Rotate the momentum components of the eigenvectors back
+        for (size_t i = 0; i < 5 && direction != 0; ++i) {
+            const real normal = matrixWithEigenVectors(1, i);
+            matrixWithEigenVectors(1, i) = -matrixWithEigenVectors(1 + direction, i);
+            matrixWithEigenVectors(1 + direction, i) = normal;
+        }
+
         return matrixWithEigenVectors.normalized();
     }
 
@@ -544,6 +551,13 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
         matrixWithEigenVectors(3, 2) = primitive.u.y;
         matrixWithEigenVectors(3, 3) = H + primitive.u.x * a;
 
+        // Rotate the momentum components of the eigenvectors back
+        for (size_t i = 0; i < 4 && direction != 0; ++i) {
+            const real normal = matrixWithEigenVectors(1, i);
+            matrixWithEigenVectors(1, i) = -matrixWithEigenVectors(1 + direction, i);
+            matrixWithEigenVectors(1 + direction, i) = normal;
+        }
+
         return matrixWithEigenVectors;
     }
 
-- 
2.43.0


From dbb1e246ac4f51b871405ccd8bf65f8f54959f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 15/84] fix: vec6 keeps its sixth component, which the sixth
 order tecno stencil uses

---
 alsutils/include/alsutils/vec6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/vec6.hpp b/alsutils/include/alsutils/vec6.hpp
index b85a3e2..9a79001 100644
--- a/alsutils/include/alsutils/vec6.hpp
+++ b/alsutils/include/alsutils/vec6.hpp
@@ -34,7 +34,7 @@ struct vec6 {
 
     }
     __device__ __host__ vec6(T x, T y, T z, T v, T w, T u)
-        : x(x), y(y), z(z), v(v), w(w), u(0) {
+        : x(x), y(y), z(z), v(v), w(w), u(u) {
         // Empty
     }
 
-- 
2.43.0


From b02e040f6b540d745b0c29d208bfcde699b577b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 16/84] fix: the logarithmic mean of almost equal values is
 accurate

---
 alsfvm/include/alsfvm/numflux/tecno_utils.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
index 52ae90d..2f05003 100644
--- a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
+++ b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
@@ -27,9 +27,14 @@ inline __device__ __host__ real diff(real left, real right) {
     return right - left;
 }
 inline __device__ __host__ real ln(real left, real right) {
-    if (diff(left, right) == 0 || diff(log(left), log(right)) == 0) {
-        // The logarithmic mean of two equal values is that value
-        return left;
+    // The quotient of differences is meaningless for almost equal values, there
+    // we expand it, see Appendix B in Ismail and Roe, "Affordable,
+    // entropy-consistent Euler flux functions II" (2009)
+    const real f = diff(left, right) / (left + right);
+    const real f2 = f * f;
+
+    if (f2 < 1e-4) {
+        return bar(left, right) / (1 + f2 * (1.0 / 3.0 + f2 * (1.0 / 5.0 + f2 / 7.0)));
     }
 
     return diff(left, right) / diff(log(left), log(right));
-- 
2.43.0


From 6aca1e6233f37a18622c19faf9a345f109dbdad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 17/84] fix: the scalar entropy conservative flux of almost
 equal values is accurate

---
 .../alsfvm/numflux/ScalarEntropyConservativeFlux.hpp      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
index e5e2519..329dc96 100644
--- a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
+++ b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
@@ -43,9 +43,11 @@ public:
         auto leftEntropyVariable = eq.computeEntropyVariables(left);
         auto rightEntropyVariable = eq.computeEntropyVariables(right);
 
-        if (left.u ==
-            right.u) {// || (leftEntropyVariable - rightEntropyVariable).norm() < 1e-6) {
-            eq.template computePointFlux<direction>(left, F);
+        // The quotient of differences is meaningless for almost equal values
+        if (left.u == right.u
+            || fabs(right.u - left.u) < 1e-6 * fabs(left.u + right.u)) {
+            const real middle = 0.5 * (left.u + right.u);
+            eq.template computePointFlux<direction>(eq.makeAllVariables(middle), F);
         } else {
             auto leftEntropyPotential = eq.computeEntropyPotential(left);
             auto rightEntropyPotential = eq.computeEntropyPotential(right);
-- 
2.43.0


From f376f656088183b7b6e3f7399b0f6fd83c1ccc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 18/84] fix: enough ghost cells for wide fluxes of
 reconstructed values

---
 alsfvm/src/numflux/NumericalFluxCPU.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index dd25b7b..f18e0f1 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -232,8 +232,14 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
 ///
 template<class Flux, class Equation, size_t dimension>
 size_t NumericalFluxCPU<Flux, Equation, dimension>::getNumberOfGhostCells() {
-    return std::max(getStencil<Flux>(Flux()).size() - 1,
-            reconstruction->getNumberOfGhostCells());
+    const size_t stencilSize = getStencil<Flux>(Flux()).size();
+
+    // The flux at the outermost face uses reconstructed values this many cells
+    // further out than a two point flux does
+    const size_t additionalCells = stencilSize / 2 - 1;
+
+    return std::max(stencilSize - 1,
+            additionalCells + reconstruction->getNumberOfGhostCells());
 
 }
 
-- 
2.43.0


From 5e5410cb49b56b25a829ca849beeaa47c3bf374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 19/84] fix: scale the eigenvectors of the two and three
 dimensional Euler equations by the entropy

---
 .../include/alsfvm/equation/euler/Euler.hpp   | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index 672f430..b5d69c5 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -467,7 +467,20 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
             matrixWithEigenVectors(1 + direction, i) = normal;
         }
 
-        return matrixWithEigenVectors.normalized();
+        // Scale the eigenvectors such that R R^T is the Jacobian of the conserved
+        // variables with respect to the entropy variables (as in one dimension)
+        const real acoustic = sqrt(conserved.rho / (2 * gamma));
+        const real entropy = sqrt(conserved.rho * (gamma - 1) / gamma);
+        const real shear = sqrt(primitive.p);
+        const real scalings[5] = {acoustic, entropy, shear, shear, acoustic};
+
+        for (size_t i = 0; i < 5; ++i) {
+            for (size_t j = 0; j < 5; ++j) {
+                matrixWithEigenVectors(j, i) *= scalings[i];
+            }
+        }
+
+        return matrixWithEigenVectors;
     }
 
 
@@ -558,6 +571,19 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
             matrixWithEigenVectors(1 + direction, i) = normal;
         }
 
+        // Scale the eigenvectors such that R R^T is the Jacobian of the conserved
+        // variables with respect to the entropy variables (as in one dimension)
+        const real acoustic = sqrt(conserved.rho / (2 * gamma));
+        const real entropy = sqrt(conserved.rho * (gamma - 1) / gamma);
+        const real shear = sqrt(primitive.p);
+        const real scalings[4] = {acoustic, entropy, shear, acoustic};
+
+        for (size_t i = 0; i < 4; ++i) {
+            for (size_t j = 0; j < 4; ++j) {
+                matrixWithEigenVectors(j, i) *= scalings[i];
+            }
+        }
+
         return matrixWithEigenVectors;
     }
 
-- 
2.43.0


From a06fe3082d1a47f5f036e55011d190c8c2126aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 20/84] fix: interpolate the interior cells of a volume with
 ghost cells, and average all eight cells in 3D

---
 alsfvm/include/alsfvm/volume/interpolate.hpp | 37 ++++++++++++--------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/interpolate.hpp b/alsfvm/include/alsfvm/volume/interpolate.hpp
index 6c1547d..c0b2d70 100644
--- a/alsfvm/include/alsfvm/volume/interpolate.hpp
+++ b/alsfvm/include/alsfvm/volume/interpolate.hpp
@@ -23,41 +23,46 @@ namespace volume {
 
 template<size_t dimension>
 void interpolate(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z);
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn);
 
 template<>
 void interpolate<1>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, y, z) + in.at(2 * x + 1, y, z)) / 2.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)) / 2.0;
 }
 
 template<>
 void interpolate<2>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, 2 * y, z) + in.at(2 * x + 1, 2 * y, z)
-            + in.at(2 * x, 2 * y + 1, z) + in.at(2 * x + 1, 2 * y + 1, z)) / 4.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)
+            + in.at(xIn, yIn + 1, zIn) + in.at(xIn + 1, yIn + 1, zIn)) / 4.0;
 }
 
 template<>
 void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
     out.at(x, y, z) = 0;
 
     // Do this with for-loop because there are just too many combinations
     for (size_t i = 0; i < 2; ++i) {
         for (size_t j = 0; j < 2; ++j) {
             for (size_t k = 0; k < 2; ++k) {
-                out.at(x, y, z) += in.at(2 * x + k, 2 * y + j, 2 * z + i);
+                out.at(x, y, z) += in.at(xIn + k, yIn + j, zIn + i);
             }
         }
     }
 
-    out.at(x, y, z) /= 16;
+    out.at(x, y, z) /= 8;
 }
 
 template<size_t dimension>
 inline void interpolate(Volume& out, const Volume& in) {
-    if (out.getNumberOfXCells() != in.getNumberOfXCells() / 2) {
+    const bool hasZ = dimension > 2;
+    const bool hasY = dimension > 1;
+
+    if (in.getNumberOfXCells() != 2 * out.getNumberOfXCells()
+        || in.getNumberOfYCells() != (hasY ? 2 : 1) * out.getNumberOfYCells()
+        || in.getNumberOfZCells() != (hasZ ? 2 : 1) * out.getNumberOfZCells()) {
         THROW("Currently we only support doing interpolation with the ration 2 to 1.");
     }
 
@@ -65,9 +70,10 @@ inline void interpolate(Volume& out, const Volume& in) {
     size_t ny = out.getTotalNumberOfYCells();
     size_t nz = out.getTotalNumberOfZCells();
 
-    size_t ng = out.getNumberOfXGhostCells();
-    bool hasZ = dimension > 2;
-    bool hasY = dimension > 1;
+    const size_t ng = out.getNumberOfXGhostCells();
+
+    // The two volumes may have a different number of ghost cells
+    const size_t ngIn = in.getNumberOfXGhostCells();
 
     for (size_t var = 0; var < out.getNumberOfVariables(); ++var) {
         auto viewOut = out.getScalarMemoryArea(var)->getView();
@@ -76,7 +82,10 @@ inline void interpolate(Volume& out, const Volume& in) {
         for (size_t z = hasZ * ng; z < nz - hasZ * ng ; ++z) {
             for (size_t y = hasY * ng; y < ny - hasY * ng; ++y) {
                 for (size_t x = ng; x < nx - ng; ++x) {
-                    interpolate<dimension>(viewOut, viewIn, x, y, z);
+                    interpolate<dimension>(viewOut, viewIn, x, y, z,
+                        ngIn + 2 * (x - ng),
+                        hasY ? ngIn + 2 * (y - ng) : y,
+                        hasZ ? ngIn + 2 * (z - ng) : z);
                 }
             }
         }
-- 
2.43.0


From 8846492bae501eea338d9812dad2b7d9af338697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 21/84] fix: copy between volumes with different numbers of
 ghost cells cell by cell, refuse different sizes in copyTo

---
 alsfvm/src/volume/Volume.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/volume/Volume.cpp b/alsfvm/src/volume/Volume.cpp
index ecb0fe1..1b2653e 100644
--- a/alsfvm/src/volume/Volume.cpp
+++ b/alsfvm/src/volume/Volume.cpp
@@ -290,6 +290,8 @@ size_t Volume::getDimensions() const {
 /// Copies the whole volume to the other volume
 ///
 void Volume::copyTo(volume::Volume& other) const {
+    CHECK_SIZE_THIS(other);
+
     if (getNumberOfVariables() == 0) {
         return;
     }
@@ -316,7 +318,30 @@ void Volume::setVolume(const Volume& other) {
 
     // Base case.
     if (nxOther == nx && nyOther == ny && nzOther == nz) {
-        other.copyTo(*this);
+        if (other.getNumberOfGhostCells() == getNumberOfGhostCells()) {
+            other.copyTo(*this);
+            return;
+        }
+
+        // The cells of the two volumes do not have the same index, so we
+        // can only copy the interior.
+        for (size_t var = 0; var < getNumberOfVariables(); ++var) {
+            auto viewOut = getScalarMemoryArea(var)->getView();
+            const auto viewIn = other.getScalarMemoryArea(var)->getView();
+
+            for (size_t z = 0; z < nz; ++z) {
+                for (size_t y = 0; y < ny; ++y) {
+                    for (size_t x = 0; x < nx; ++x) {
+                        viewOut.at(x + numberOfXGhostCells, y + numberOfYGhostCells,
+                            z + numberOfZGhostCells) =
+                                viewIn.at(x + other.getNumberOfXGhostCells(),
+                                    y + other.getNumberOfYGhostCells(),
+                                    z + other.getNumberOfZGhostCells());
+                    }
+                }
+            }
+        }
+
         return;
     }
 
-- 
2.43.0


From 97dc3267f32c2f51a4d63e4fe6edde1031cae6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 22/84] fix: refuse operands of different size in volume and
 memory operations

---
 alsfvm/include/alsfvm/volume/volume_foreach.hpp | 11 +++++++++++
 alsfvm/src/memory/HostMemory.cpp                |  4 ++++
 alsfvm/src/volume/Volume.cpp                    |  8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/alsfvm/include/alsfvm/volume/volume_foreach.hpp b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
index 03aa9c3..243f0a1 100644
--- a/alsfvm/include/alsfvm/volume/volume_foreach.hpp
+++ b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
@@ -265,6 +265,17 @@ inline void transform_volume(const Volume& in, Volume& out,
     std::array < real*, sizeof(VariableStructOut) / sizeof(real) > pointersOut;
     pointersOut.fill(nullptr);
 
+    if (pointersOut.size() != out.getNumberOfVariables()) {
+        THROW("Number of variables given does not match struct size."
+            << " Number of output variables given: "
+            << out.getNumberOfVariables());
+    }
+
+    if (!(in.getTotalDimensions() == out.getTotalDimensions())) {
+        THROW("The input and output volume do not have the same size: "
+            << in.getTotalDimensions() << " and " << out.getTotalDimensions());
+    }
+
     for (size_t i = 0; i < out.getNumberOfVariables(); i++) {
         pointersOut[i] = out.getScalarMemoryArea(i)->getPointer();
     }
diff --git a/alsfvm/src/memory/HostMemory.cpp b/alsfvm/src/memory/HostMemory.cpp
index 0e4584e..1e355e3 100644
--- a/alsfvm/src/memory/HostMemory.cpp
+++ b/alsfvm/src/memory/HostMemory.cpp
@@ -99,6 +99,10 @@ void HostMemory<T>::operator+=(const Memory<T>& other) {
         THROW("Memory not on host");
     }
 
+    if (other.getSize() != this->getSize()) {
+        THROW("Memory size not the same");
+    }
+
     auto pointer = other.getPointer();
     #pragma omp parallel for simd
 
diff --git a/alsfvm/src/volume/Volume.cpp b/alsfvm/src/volume/Volume.cpp
index 1b2653e..13b66be 100644
--- a/alsfvm/src/volume/Volume.cpp
+++ b/alsfvm/src/volume/Volume.cpp
@@ -176,6 +176,8 @@ std::string Volume::getName(size_t index) const {
 /// Adds each component of the other volume to this volume
 ///
 Volume& Volume::operator+=(const Volume& other) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); i++) {
         (*(memoryAreas)[i]) += *(other.getScalarMemoryArea(i));
     }
@@ -401,6 +403,8 @@ ivec3 Volume::getTotalDimensions() const {
 }
 
 void Volume::addPower(const Volume& other, real power) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->addPower(*other[i], power);
     }
@@ -410,6 +414,8 @@ void Volume::addPower(const Volume& other, real power) {
 
 
 void Volume::addPower(const Volume& other, real power, real factor) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->addPower(*other[i], power, factor);
     }
@@ -417,6 +423,8 @@ void Volume::addPower(const Volume& other, real power, real factor) {
 }
 
 void Volume::subtractPower(const Volume& other, real power) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->subtractPower(*other[i], power);
     }
-- 
2.43.0


From 3371a6ca25f99b1c35f749421004b10b1f311a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 23/84] fix: refuse a total variation along a direction the
 memory does not have

---
 alsfvm/src/memory/HostMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/src/memory/HostMemory.cpp b/alsfvm/src/memory/HostMemory.cpp
index 1e355e3..b58ac56 100644
--- a/alsfvm/src/memory/HostMemory.cpp
+++ b/alsfvm/src/memory/HostMemory.cpp
@@ -376,7 +376,7 @@ real HostMemory<T>::getTotalVariation(int direction, int p, const ivec3& start,
     const size_t ny = this->ny;
     const size_t nz = this->nz;
 
-    if (direction > (1 + (ny > 1) + (nz > 1))) {
+    if (direction < 0 || direction >= (1 + (ny > 1) + (nz > 1))) {
         THROW("direction = " << direction << " is bigger than current dimension");
     }
 
-- 
2.43.0


From 8f273a5cd3d8bdd223b20b71be3d5337a0dc8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 24/84] fix: never lose the last save when n * (endTime / n) is
 past the end time

---
 .../include/alsfvm/io/FixedIntervalWriter.hpp |  3 +++
 alsfvm/src/io/FixedIntervalWriter.cpp         | 23 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
index 20e6d89..a3ceb39 100644
--- a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
+++ b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
@@ -59,8 +59,11 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Writer> writer;
     const real timeInterval;
+    const real endTime;
     size_t numberSaved;
     const bool writeInitialTimestep;
 
diff --git a/alsfvm/src/io/FixedIntervalWriter.cpp b/alsfvm/src/io/FixedIntervalWriter.cpp
index c7a8c0c..162eadf 100644
--- a/alsfvm/src/io/FixedIntervalWriter.cpp
+++ b/alsfvm/src/io/FixedIntervalWriter.cpp
@@ -16,13 +16,14 @@
 #include "alsfvm/io/FixedIntervalWriter.hpp"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 
 namespace alsfvm {
 namespace io {
 
 FixedIntervalWriter::FixedIntervalWriter(alsfvm::shared_ptr<Writer>& writer,
-    real timeInterval, real, bool writeInitialTimestep, real startTime)
-    : writer(writer), timeInterval(timeInterval), numberSaved(0),
+    real timeInterval, real endTime, bool writeInitialTimestep, real startTime)
+    : writer(writer), timeInterval(timeInterval), endTime(endTime), numberSaved(0),
       writeInitialTimestep(writeInitialTimestep), startTime(startTime) {
     if (!writeInitialTimestep) {
         numberSaved = 1;
@@ -35,7 +36,7 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
     const simulator::TimestepInformation& timestepInformation) {
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (currentTime >= numberSaved * timeInterval + startTime) {
+    if (currentTime >= getNextSaveTime()) {
         writer->write(conservedVariables, grid, timestepInformation);
         numberSaved++;
     }
@@ -45,13 +46,25 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
 real FixedIntervalWriter::adjustTimestep(real dt,
     const simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval + startTime;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt,
+                getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
 }
 
+real FixedIntervalWriter::getNextSaveTime() const {
+    const real nextSaveTime = numberSaved * timeInterval + startTime;
+
+    // n * (endTime / n) need not equal endTime. If it ends up after endTime, the
+    // simulation can end without the last save.
+    if (std::abs(nextSaveTime - endTime) < 1e-6 * timeInterval) {
+        return endTime;
+    }
+
+    return nextSaveTime;
+}
+
 void FixedIntervalWriter::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
     writer->finalize(grid, timestepInformation);
-- 
2.43.0


From ca077f7da2b4ae70ed8ae4c0a768ec4f9833fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 25/84] fix: coarse-grained saves at the requested times,
 refuse windows wider than the interval

---
 .../io/CoarseGrainingIntervalWriter.hpp       |  3 ++
 .../src/io/CoarseGrainingIntervalWriter.cpp   | 38 +++++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp b/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
index dfbede4..922095b 100644
--- a/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
+++ b/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
@@ -66,8 +66,11 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Writer> writer;
     const real timeInterval;
+    const real endTime;
     const int numberOfCoarseSaves;
     const int numberOfSkips;
 
diff --git a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
index f9774a3..b0c67ac 100644
--- a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
+++ b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
@@ -16,7 +16,9 @@
 #include "alsfvm/io/CoarseGrainingIntervalWriter.hpp"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 #include "alsutils/log.hpp"
+#include "alsutils/error/Exception.hpp"
 
 namespace alsfvm {
 namespace io {
@@ -25,8 +27,8 @@ CoarseGrainingIntervalWriter::CoarseGrainingIntervalWriter(
     alsfvm::shared_ptr<Writer>& writer,
     real timeInterval,
     int numberOfCoarseSaves,
-    real, int numberOfSkips)
-    : writer(writer), timeInterval(timeInterval),
+    real endTime, int numberOfSkips)
+    : writer(writer), timeInterval(timeInterval), endTime(endTime),
       numberOfCoarseSaves(numberOfCoarseSaves),
       numberOfSkips(numberOfSkips),
       numberSaved(0) {
@@ -42,8 +44,17 @@ void CoarseGrainingIntervalWriter::write(const volume::Volume&
     dx = grid.getCellLengths().x;
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (currentTime >= numberSaved * timeInterval + (numberOfSkips + 1)*dx *
-        (numberSmallSaved)) {
+    // Otherwise the saves around one time would come before (some of) the saves
+    // around the previous one
+    if (2 * numberOfCoarseSaves * (numberOfSkips + 1) * dx >= timeInterval) {
+        THROW("The coarse saves around each time overlap:"
+            << "\n\ttimeInterval = " << timeInterval
+            << "\n\tdx = " << dx
+            << "\n\tnumberOfCoarseSaves = " << numberOfCoarseSaves
+            << "\n\tnumberOfSkips = " << numberOfSkips);
+    }
+
+    if (currentTime >= getNextSaveTime()) {
         writer->write(conservedVariables, grid, timestepInformation);
         ALSVINN_LOG(INFO, "Writing at " << timestepInformation.getCurrentTime()
             << "("
@@ -78,15 +89,26 @@ real CoarseGrainingIntervalWriter::adjustTimestep(real dt,
     const simulator::TimestepInformation& timestepInformation) const {
 
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval + (numberOfSkips + 1) *
-            dx * (numberSmallSaved);
-
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt,
+                getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
 }
 
+real CoarseGrainingIntervalWriter::getNextSaveTime() const {
+    const real nextSaveTime = numberSaved * timeInterval + (numberOfSkips + 1) *
+        dx * (numberSmallSaved);
+
+    // n * (endTime / n) need not equal endTime. If it ends up after endTime, the
+    // simulation can end without the last save.
+    if (std::abs(nextSaveTime - endTime) < 1e-6 * dx) {
+        return endTime;
+    }
+
+    return nextSaveTime;
+}
+
 void CoarseGrainingIntervalWriter::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
     writer->finalize(grid, timestepInformation);
-- 
2.43.0


From 73943103007c44eb0168c1e1bb3c145eaa4ba492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 26/84] fix: time-averaged output weighs each step by its part
 inside the window

---
 .../alsfvm/io/TimeIntegratedWriter.hpp        |  3 ++
 alsfvm/src/io/TimeIntegratedWriter.cpp        | 32 ++++++++++++-------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp b/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
index 2e7fa8b..f94136c 100644
--- a/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
+++ b/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
@@ -55,11 +55,14 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    void writeIntegrated(const grid::Grid& grid);
+
     alsfvm::shared_ptr<Writer> writer;
     const real time;
     const real timeRadius;
 
     real lastTime = 0;
+    real integratedTime = 0;
     bool written = false;
     alsfvm::shared_ptr<volume::Volume> integratedConservedVariables;
 };
diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index fab5644..5be2c51 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -14,6 +14,8 @@
  */
 
 #include "alsfvm/io/TimeIntegratedWriter.hpp"
+#include "alsutils/error/Exception.hpp"
+#include <algorithm>
 
 namespace alsfvm {
 namespace io {
@@ -22,7 +24,9 @@ TimeIntegratedWriter::TimeIntegratedWriter(alsfvm::shared_ptr<Writer>& writer,
     real time,
     real timeRadius)
     : writer(writer), time(time), timeRadius(timeRadius) {
-
+    if (!(timeRadius > 0)) {
+        THROW("The time radius must be positive, given " << timeRadius);
+    }
 }
 
 void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
@@ -31,7 +35,11 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (std::abs(currentTime - time) < timeRadius) {
+    // The part of the time since the last call that is inside the window
+    const real dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
+
+    if (!written && dt > 0) {
 
         if (!integratedConservedVariables) {
             integratedConservedVariables = conservedVariables.makeInstance();
@@ -39,34 +47,36 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
         }
 
-        const real dt = currentTime - lastTime;
-
-
-
-
         integratedConservedVariables->addLinearCombination(1,
             dt, conservedVariables,
             0, conservedVariables,
             0, conservedVariables,
             0, conservedVariables);
 
+        integratedTime += dt;
+    }
 
+    if (currentTime >= time + timeRadius) {
+        writeIntegrated(grid);
     }
 
-    if (!written && currentTime >= time + timeRadius) {
+    lastTime = currentTime;
+}
 
+void TimeIntegratedWriter::writeIntegrated(const grid::Grid& grid) {
+    if (!written && integratedConservedVariables) {
         simulator::TimestepInformation newTime(time, 0);
-        *integratedConservedVariables *= 0.5 / timeRadius;
+        *integratedConservedVariables *= 1.0 / integratedTime;
         writer->write(*integratedConservedVariables, grid,
             newTime);
         written = true;
     }
-
-    lastTime = currentTime;
 }
 
 void TimeIntegratedWriter::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
+    // The simulation may have ended inside the window
+    writeIntegrated(grid);
     writer->finalize(grid, timestepInformation);
 }
 
-- 
2.43.0


From cce2358a46bbb23464008b51068100f9f49e0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 27/84] fix: use the time-averaging writer that was made

---
 alsfvm/src/config/SimulatorSetup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 80b51bf..f5b4131 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -410,6 +410,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
                             timeInterval, time + timeRadius, false,
                             std::max(time - timeRadius, real(0.0))));
             }
+
+            return timeIntegratedWriter;
         }
 
         return baseWriter;
-- 
2.43.0


From 1cc8da7ed10145ae6e5bdc12181e14f18abedea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 28/84] fix: run without message passing

---
 alsfvm/src/config/SimulatorSetup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index f5b4131..1435d1f 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -201,7 +201,9 @@ const std::string& filename) {
             diffusionOperator,
             name);
 
-    simulator->setCellExchanger(cellExchangerPtr);
+    if (cellExchangerPtr) {
+        simulator->setCellExchanger(cellExchangerPtr);
+    }
 
     if (writer) {
         simulator->addWriter(writer);
-- 
2.43.0


From d0c70a17c99a306329ba95d640c18bf311b424a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 29/84] fix: time-integrated functionals only count the part of
 a step inside the window

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 1fde1c9..d01c927 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
+#include <algorithm>
 #include <iostream>
 
 namespace alsfvm {
@@ -38,9 +39,11 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
     }
 
     const double currentTime = timestepInformation.getCurrentTime();
-    const double dt = currentTime - lastTime;
+    // The part of the time since the last call that is inside the window
+    const double dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
 
-    if (std::abs(currentTime - time) <= timeRadius) {
+    if (dt > 0) {
         (*functional)(*conservedVolume,  conservedVariables,
             dt, grid);
     }
@@ -50,6 +53,11 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
 
 void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
+    // Nothing was ever computed (eg. the simulation ended before the first snapshot)
+    if (!conservedVolume) {
+        return;
+    }
+
     const ivec3 numberOfNodes = grid.getGlobalSize() / grid.getDimensions();
     grid::Grid smallerGrid(grid.getOrigin(),
         grid.getTop(),
-- 
2.43.0


From 95e29f9c1a78793c374ad372c80e29b9a1c28bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 30/84] fix: place the part of each process in the output of
 functionals

---
 alsfvm/src/functional/IntervalFunctionalWriter.cpp  | 2 +-
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/IntervalFunctionalWriter.cpp b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
index 5be53bd..c1da41c 100644
--- a/alsfvm/src/functional/IntervalFunctionalWriter.cpp
+++ b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
@@ -49,7 +49,7 @@ void IntervalFunctionalWriter::write(const volume::Volume& conservedVariables,
             grid.getTop(),
             functionalSize,
             grid.getBoundaryConditions(),
-            grid.getGlobalPosition(),
+            grid.getGlobalPosition() / grid.getDimensions() * functionalSize,
             numberOfNodes * functionalSize);
 
         ALSVINN_LOG(INFO, "modifiedGrid.getDimensions().x = " <<
diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index d01c927..7c43600 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -63,7 +63,7 @@ void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
         grid.getTop(),
         functionalSize,
         grid.getBoundaryConditions(),
-        grid.getGlobalPosition(),
+        grid.getGlobalPosition() / grid.getDimensions() * functionalSize,
         numberOfNodes * functionalSize);
 
     writer->write(*conservedVolume, smallerGrid, timestepInformation);
-- 
2.43.0


From 05ebf45aabfb5a05e8b0e5271cba18d5951edad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 31/84] fix: directional structure functional covers all
 interior cells and uses the weight

---
 .../alsfvm/functional/StructureBase.hpp       |  2 +-
 alsfvm/src/functional/StructureBase.cpp       | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/StructureBase.hpp b/alsfvm/include/alsfvm/functional/StructureBase.hpp
index 9166324..131bdd5 100644
--- a/alsfvm/include/alsfvm/functional/StructureBase.hpp
+++ b/alsfvm/include/alsfvm/functional/StructureBase.hpp
@@ -61,7 +61,7 @@ public:
 private:
 
     void computeStructure(alsfvm::volume::Volume& outputVolume,
-        const alsfvm::volume::Volume& input);
+        const alsfvm::volume::Volume& input, const real weight);
 
     const size_t direction;
     const real p;
diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index d66624a..feebff0 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -33,8 +33,15 @@ void StructureBase::operator()(volume::Volume& conservedVolumeOut,
     const volume::Volume& conservedVolumeIn,
     const real weight,
     const grid::Grid& grid) {
+    for (auto boundaryConditionOnSide : grid.getActiveBoundaryConditions()) {
+        if (boundaryConditionOnSide == alsfvm::boundary::MPI_BC) {
+            THROW("The structure functional needs the whole domain on one process, "
+                << "it does not support multi_x, multi_y or multi_z > 1");
+        }
+    }
+
     computeStructure(conservedVolumeOut,
-        conservedVolumeIn);
+        conservedVolumeIn, weight);
 
 }
 
@@ -44,7 +51,7 @@ ivec3 StructureBase::getFunctionalSize(const grid::Grid& grid) const {
 }
 
 void StructureBase::computeStructure(volume::Volume& output,
-    const volume::Volume& input) {
+    const volume::Volume& input, const real weight) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -53,9 +60,9 @@ void StructureBase::computeStructure(volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
@@ -76,7 +83,7 @@ void StructureBase::computeStructure(volume::Volume& output,
 
 
 
-                        outputView.at(h, 0, 0) += std::pow(std::abs(u_ijk - u_ijk_h),
+                        outputView.at(h, 0, 0) += weight * std::pow(std::abs(u_ijk - u_ijk_h),
                                 p) / (nx * ny * nz);
                     }
                 }
-- 
2.43.0


From 0304a467c9af764a174c10cac478308a4ac1a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 32/84] fix: cube structure functional adds to its output with
 the given weight

---
 .../alsfvm/functional/structure_common.hpp    | 24 ++++++++++---------
 alsfvm/src/functional/StructureCube.cpp       |  6 ++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/structure_common.hpp b/alsfvm/include/alsfvm/functional/structure_common.hpp
index b818f83..4546843 100644
--- a/alsfvm/include/alsfvm/functional/structure_common.hpp
+++ b/alsfvm/include/alsfvm/functional/structure_common.hpp
@@ -108,10 +108,10 @@ __device__ __host__ void computeStructureCube(
     output,
     const alsfvm::memory::View<const real>& input,
     int i, int j, int k, int h, int nx, int ny, int nz,
-    int ngx, int ngy, int ngz, int dimensions, real p) {
+    int ngx, int ngy, int ngz, int dimensions, real p, real weight = 1) {
 
     forEachPointInComputeStructureCube<BoundaryType>([&](double u, double u_h) {
-        output.at(h) += PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
+        output.at(h) += weight * PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
     }, input, i, j, k, h, nx, ny, nz, ngx, ngy, ngz, dimensions);
 }
 
@@ -120,7 +120,8 @@ __device__ __host__ void computeStructureCube(
 
 template<alsfvm::boundary::Type BoundaryType, class PowerClass>
 inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p,
+    real weight = 1) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -140,7 +141,7 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
                         computeStructureCube<BoundaryType, PowerClass>(outputView, inputView, i, j, k,
                             h, nx, ny, nz,
-                            ngx, ngy, ngz, input.getDimensions(), p);
+                            ngx, ngy, ngz, input.getDimensions(), p, weight);
 
                     }
                 }
@@ -155,27 +156,28 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
 template<alsfvm::boundary::Type BoundaryType>
 inline void dispatchComputeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p,
+    real weight = 1) {
     if (p == 1.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<1>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 2.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<2>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     }
 
     else if (p == 3.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<3>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 4.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<4>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 5.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<5>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else {
         computeStructureCubeCPU <BoundaryType, alsutils::math::PowPower>
-        (output, input, numberOfH, p);
+        (output, input, numberOfH, p, weight);
     }
 }
 
diff --git a/alsfvm/src/functional/StructureCube.cpp b/alsfvm/src/functional/StructureCube.cpp
index d12ca32..e2a1a36 100644
--- a/alsfvm/src/functional/StructureCube.cpp
+++ b/alsfvm/src/functional/StructureCube.cpp
@@ -33,8 +33,6 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
 
-    conservedVolumeOut.makeZero();
-
     const auto boundaryConditions = grid.getBoundaryCondition(0);
 
     for (auto boundaryConditionOnSide : grid.getActiveBoundaryConditions()) {
@@ -48,12 +46,12 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     if (boundaryConditions == alsfvm::boundary::PERIODIC) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::PERIODIC>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else if (boundaryConditions == alsfvm::boundary::NEUMANN) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::NEUMANN>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else {
         THROW("Unsupported boundary condition for StructureCube structure functions. "
-- 
2.43.0


From 62978e7e1fbd61584c0c362d94033d1a1298b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 33/84] fix: refuse Legendre functionals and the variation in
 unsupported dimensions

---
 alsfvm/src/functional/BoundedVariation.cpp  | 2 +-
 alsfvm/src/functional/Legendre.cpp          | 2 +-
 alsfvm/src/functional/LegendrePointWise.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsfvm/src/functional/BoundedVariation.cpp b/alsfvm/src/functional/BoundedVariation.cpp
index 6530252..a087927 100644
--- a/alsfvm/src/functional/BoundedVariation.cpp
+++ b/alsfvm/src/functional/BoundedVariation.cpp
@@ -16,7 +16,7 @@ void BoundedVariation::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1) {
+    if (grid.getActiveDimension() > 2) {
         THROW("For now, BoundedVariation  only support 2d and 1d, given dimensions "
             <<
             lengths);
diff --git a/alsfvm/src/functional/Legendre.cpp b/alsfvm/src/functional/Legendre.cpp
index 8eac2d6..a3dc65e 100644
--- a/alsfvm/src/functional/Legendre.cpp
+++ b/alsfvm/src/functional/Legendre.cpp
@@ -50,7 +50,7 @@ void Legendre::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1 || lengths.y == 1) {
+    if (grid.getActiveDimension() != 2) {
         THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
             lengths);
     }
diff --git a/alsfvm/src/functional/LegendrePointWise.cpp b/alsfvm/src/functional/LegendrePointWise.cpp
index 9e4a650..0c71758 100644
--- a/alsfvm/src/functional/LegendrePointWise.cpp
+++ b/alsfvm/src/functional/LegendrePointWise.cpp
@@ -48,7 +48,7 @@ void LegendrePointWise::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1 || lengths.y == 1) {
+    if (grid.getActiveDimension() != 2) {
         THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
             lengths);
     }
-- 
2.43.0


From 8102856f665b42f0fd368f0d00c9c62e01f48883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 34/84] fix: log entropy decides on the momenta there are, not
 on the grid

---
 alsfvm/src/functional/LogEntropy.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/alsfvm/src/functional/LogEntropy.cpp b/alsfvm/src/functional/LogEntropy.cpp
index 3e31eb2..8c56a86 100644
--- a/alsfvm/src/functional/LogEntropy.cpp
+++ b/alsfvm/src/functional/LogEntropy.cpp
@@ -28,20 +28,18 @@ void LogEntropy::operator()(volume::Volume& conservedVolumeOut,
     const auto& energyView = conservedVolumeIn.getScalarMemoryArea(
             "E")->getView();
 
-    const size_t numberOfComponents = grid.getActiveDimension();
-
     std::vector<const real*> momentumPointers;
 
 
     momentumPointers.push_back(
         conservedVolumeIn.getScalarMemoryArea("mx")->getPointer());
 
-    if (numberOfComponents > 1) {
+    if (conservedVolumeIn.hasVariable("my")) {
         momentumPointers.push_back(
             conservedVolumeIn.getScalarMemoryArea("my")->getPointer());
     }
 
-    if (numberOfComponents > 2) {
+    if (conservedVolumeIn.hasVariable("mz")) {
         momentumPointers.push_back(
             conservedVolumeIn.getScalarMemoryArea("mz")->getPointer());
     }
@@ -59,7 +57,7 @@ void LogEntropy::operator()(volume::Volume& conservedVolumeOut,
 
         double momentumSquared = 0.0;
 
-        for (size_t component = 0; component < numberOfComponents; ++component) {
+        for (size_t component = 0; component < momentumPointers.size(); ++component) {
             const auto momentum = momentumPointers[component][i];
             momentumSquared += momentum * momentum;
         }
-- 
2.43.0


From 93d81f6777bc3e69e4b977cc72d10d872f975d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 35/84] fix: directional variation statistic adds up the
 samples

---
 alsuq/src/stats/BoundedVariationDirection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/BoundedVariationDirection.cpp b/alsuq/src/stats/BoundedVariationDirection.cpp
index 33b1456..41b0d91 100644
--- a/alsuq/src/stats/BoundedVariationDirection.cpp
+++ b/alsuq/src/stats/BoundedVariationDirection.cpp
@@ -58,18 +58,18 @@ void BoundedVariationDirection::computeStatistics(const alsfvm::volume::Volume&
 
     for (size_t var = 0; var < conservedVariables.getNumberOfVariables(); ++var) {
         bvX.getVolumes().getConservedVolume()->getScalarMemoryArea(var)->getPointer()[0]
-            = conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
+            += conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
                     end);
 
         if (conservedVariables.getDimensions() > 1) {
             bvY.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(1, p, start, end);
         }
 
         if (conservedVariables.getDimensions() > 2) {
             bvZ.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(2, p, start, end);
         }
 
-- 
2.43.0


From c2e40742ea5fc6d4d9bb2bc59ab1832b2792cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 36/84] fix: interval statistics collect all samples under the
 requested times

---
 .../alsuq/stats/FixedIntervalStatistics.hpp   |  3 +++
 alsuq/src/stats/FixedIntervalStatistics.cpp   | 26 ++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
index 325019b..6828ec4 100644
--- a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
+++ b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
@@ -68,6 +68,9 @@ protected:
         const alsfvm::simulator::TimestepInformation& timestepInformation) override;
 
 private:
+    //! The time of the next save
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Statistics> statistics;
     const real timeInterval;
     const real endTime;
diff --git a/alsuq/src/stats/FixedIntervalStatistics.cpp b/alsuq/src/stats/FixedIntervalStatistics.cpp
index e17eb5e..f50f865 100644
--- a/alsuq/src/stats/FixedIntervalStatistics.cpp
+++ b/alsuq/src/stats/FixedIntervalStatistics.cpp
@@ -15,6 +15,7 @@
 
 #include "alsuq/stats/FixedIntervalStatistics.hpp"
 #include "alsutils/log.hpp"
+#include <cmath>
 
 namespace alsuq {
 namespace stats {
@@ -33,13 +34,25 @@ FixedIntervalStatistics::FixedIntervalStatistics(alsfvm::shared_ptr<Statistics>&
 real FixedIntervalStatistics::adjustTimestep(real dt,
     const alsfvm::simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt,
+                getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
 }
 
+real FixedIntervalStatistics::getNextSaveTime() const {
+    const real nextSaveTime = numberSaved * timeInterval;
+
+    // n * (endTime / n) need not equal endTime. If it ends up after endTime, the
+    // simulation can end without the last save.
+    if (std::abs(nextSaveTime - endTime) < 1e-6 * timeInterval) {
+        return endTime;
+    }
+
+    return nextSaveTime;
+}
+
 void FixedIntervalStatistics::combineStatistics() {
     statistics->combineStatistics();
 }
@@ -74,13 +87,18 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
         numberSaved = size_t(!writeInitialTimestep);
     }
 
-    if (currentTime >= numberSaved * timeInterval) {
+    const real saveTime = getNextSaveTime();
+
+    if (currentTime >= saveTime) {
         ALSVINN_LOG(INFO, "Computing statistics, currentTime = " << currentTime << ", "
             << "\n\tnumberSaves = " << numberSaved
             << "\n\ttimeInterval = " << timeInterval
             << "\n\tendTime = " << endTime);
+        // The time reached differs by rounding from sample to sample, so the
+        // statistics have to be collected under the requested time.
         statistics->computeStatistics(conservedVariables, grid,
-            timestepInformation);
+            alsfvm::simulator::TimestepInformation(saveTime,
+                timestepInformation.getNumberOfStepsPerformed()));
         numberSaved++;
     }
 }
-- 
2.43.0


From 78a556e8609bf4cabc8890553ae1af185f36b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 37/84] fix: two point structure function uses both directions
 and all cells

---
 alsuq/src/stats/StructureTwoPoints.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index 2176920..ee1a678 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -46,6 +46,15 @@ void StructureTwoPoints::computeStatistics(const alsfvm::volume::Volume&
             numberOfH, numberOfH, 1);
 
 
+    for (auto direction : {direction1, direction2}) {
+        if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::MPI_BC
+            || grid.getBoundaryCondition(2 * direction + 1) == alsfvm::boundary::MPI_BC) {
+            THROW("Unsupported boundary condition for StructureTwoPoints structure functions. "
+                << "Maybe you are trying to run MPI with multi_x, multi_y or multi_z > 1?"
+                << " This is not supported in the current version.");
+        }
+    }
+
     computeStructure(*structure.getVolumes().getConservedVolume(),
         conservedVariables);
 
@@ -65,9 +74,9 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
@@ -82,10 +91,10 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
                                 std::min(k + h1 * directionVector1.z, nz - 1) + ngz);
 
                         for (int h2 = 0; h2 < int(numberOfH); ++h2) {
-                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector1.x,
+                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector2.x,
                                         nx - 1) % nx + ngx,
-                                    std::min(j + h2 * directionVector1.y, ny - 1) % ny + ngy,
-                                    std::min(k + h2 * directionVector1.z, nz - 1) % nz + ngz);
+                                    std::min(j + h2 * directionVector2.y, ny - 1) % ny + ngy,
+                                    std::min(k + h2 * directionVector2.z, nz - 1) % nz + ngz);
 
 
                             outputView.at(h1, h2, 0) += (u_ijk_h1 - u_ijk) * (u_ijk_h1 - u_ijk) *
-- 
2.43.0


From fe9bb1abf5c4e8995a57644142ce6af33c31af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 38/84] fix: structure function looks at the boundary of its
 own direction

---
 alsuq/src/stats/StructureBasic.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alsuq/src/stats/StructureBasic.cpp b/alsuq/src/stats/StructureBasic.cpp
index 4ac4a46..858fd12 100644
--- a/alsuq/src/stats/StructureBasic.cpp
+++ b/alsuq/src/stats/StructureBasic.cpp
@@ -45,11 +45,21 @@ void StructureBasic::computeStatistics(const alsfvm::volume::Volume&
             conservedVariables,
             numberOfH, 1, 1);
 
-    if (grid.getBoundaryCondition(direction) == alsfvm::boundary::PERIODIC) {
+    // Each direction has two sides
+    const auto boundaryCondition = grid.getBoundaryCondition(2 * direction);
+
+    if (grid.getBoundaryCondition(2 * direction + 1) != boundaryCondition) {
+        THROW("We require that the boundary conditions are the same on both "
+            << "sides for StructureBasic structure functions. "
+            << "Maybe you are trying to run MPI with multi_x, multi_y or multi_z > 1?"
+            << " This is not supported in the current version.");
+    }
+
+    if (boundaryCondition == alsfvm::boundary::PERIODIC) {
         computeStructure<alsfvm::boundary::PERIODIC>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-    } else if (grid.getBoundaryCondition(direction) == alsfvm::boundary::NEUMANN) {
+    } else if (boundaryCondition == alsfvm::boundary::NEUMANN) {
         computeStructure<alsfvm::boundary::NEUMANN>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-- 
2.43.0


From be83d19e3adc25ee732b8fa6dde78f4e64512c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 39/84] fix: statistics of their own size are written at the
 place of each process

---
 alsuq/src/stats/StatisticsHelper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/StatisticsHelper.cpp b/alsuq/src/stats/StatisticsHelper.cpp
index 3a664a8..4d06cd9 100644
--- a/alsuq/src/stats/StatisticsHelper.cpp
+++ b/alsuq/src/stats/StatisticsHelper.cpp
@@ -88,8 +88,16 @@ void StatisticsHelper::writeStatistics(const alsfvm::grid::Grid& grid) {
                 auto& timestepInformation = statistics.second.getTimestepInformation();
 
                 if (ownGrid) {
+                    // In a decomposed run, every process writes its own part
+                    const auto size = ownGrid->getDimensions();
+                    alsfvm::grid::Grid partGrid(ownGrid->getOrigin(),
+                        ownGrid->getTop(),
+                        size,
+                        ownGrid->getBoundaryConditions(),
+                        grid.getGlobalPosition() / grid.getDimensions() * size,
+                        grid.getGlobalSize() / grid.getDimensions() * size);
                     writer->write(*volumes.getConservedVolume(),
-                        *ownGrid, timestepInformation);
+                        partGrid, timestepInformation);
                 } else {
                     writer->write(*volumes.getConservedVolume(),
                         grid, timestepInformation);
-- 
2.43.0


From 87bb3c06e4095b4dc8cf2d2f20a7a125f1dcda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 40/84] fix: functional statistics with ghost cells, and the
 part of steps inside the window

---
 alsuq/src/stats/FunctionalStatistics.cpp      |  9 ++++-
 .../TimeIntegratedFunctionalStatistics.cpp    | 34 ++++++++++++-------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/alsuq/src/stats/FunctionalStatistics.cpp b/alsuq/src/stats/FunctionalStatistics.cpp
index 9db32be..49211b5 100644
--- a/alsuq/src/stats/FunctionalStatistics.cpp
+++ b/alsuq/src/stats/FunctionalStatistics.cpp
@@ -48,7 +48,14 @@ void FunctionalStatistics::computeStatistics(
 
 
     auto gridFunctional = functional->getFunctionalSize(grid);
-    auto& functionalData = this->findOrCreateSnapshot(statisticsNames[0],
+    // Some functionals write the ghost cells as well
+    const bool withGhostCells = !(functional->getGhostCellSizes(grid,
+            conservedVariables) == ivec3{0, 0, 0});
+    auto& functionalData = withGhostCells ?
+        this->findOrCreateSnapshot(statisticsNames[0],
+            timestepInformation,
+            conservedVariables) :
+        this->findOrCreateSnapshot(statisticsNames[0],
             timestepInformation,
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
diff --git a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
index cf2f41f..7c7225d 100644
--- a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
+++ b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
@@ -56,25 +56,33 @@ void TimeIntegratedFunctionalStatistics::computeStatistics(
     const double currentTime = timestepInformation.getCurrentTime();
 
     auto gridFunctional = functional->getFunctionalSize(grid);
-    auto& functionalTime = this->findOrCreateSnapshot(statisticsNames[0],
+    // Some functionals write the ghost cells as well
+    const bool withGhostCells = !(functional->getGhostCellSizes(grid,
+            conservedVariables) == ivec3{0, 0, 0});
+    auto& functionalTime = withGhostCells ?
+        this->findOrCreateSnapshot(statisticsNames[0],
+            fixedTimestepInformation,
+            conservedVariables) :
+        this->findOrCreateSnapshot(statisticsNames[0],
             fixedTimestepInformation,
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
 
-    if (std::abs(currentTime - time) <= timeRadius) {
-        // Now we should write
-        double dt = currentTime - lastTime;
+    // We are on a new sample
+    if (currentTime < lastTime) {
+        lastTime = currentTime;
+    }
 
-        // If dt <= 0, we get no contributioni (usually it is because we
-        // are on a new sample)
-        if (dt > 0) {
-            functional->operator ()(*functionalTime.getVolumes().getConservedVolume(),
-                conservedVariables,
-                dt,
-                grid
-            );
-        }
+    // Only the part of the step inside the window counts
+    const double dt = std::min<double>(currentTime, time + timeRadius)
+        - std::max<double>(lastTime, time - timeRadius);
 
+    if (dt > 0) {
+        functional->operator ()(*functionalTime.getVolumes().getConservedVolume(),
+            conservedVariables,
+            dt,
+            grid
+        );
     }
 
     lastTime = currentTime;
-- 
2.43.0


From 6601314d621927208c084be1d70871f9111cc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 41/84] fix: refuse statistics whose times are missing or not
 supported

---
 alsuq/src/config/Setup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 5eec072..3e4e382 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -285,10 +285,18 @@ std::vector<std::shared_ptr<stats::Statistics> > Setup::createStatistics(
             const real time = statisticsNode.second.get<real>("time");
             const real radius = statisticsNode.second.get<real>("timeRadius");
 
+            // The other statistics would collect every timestep of every sample
+            if (name != "functional_time_integrated") {
+                THROW("The statistics " << name << " does not support time integration, "
+                    << "use numberOfSaves instead of time and timeRadius.");
+            }
+
             auto timeIntegrator = std::shared_ptr<stats::Statistics>(
                     new stats::TimeIntegratedWriter(statistics, time,
                         radius));
             statisticsVector.push_back(timeIntegrator);
+        } else {
+            THROW("Neither numberOfSaves nor time was given for the statistics " << name);
         }
 
 
-- 
2.43.0


From ef226fe6277ba9f0970378228a712d538127ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 42/84] fix: samples depend on their number only, not on the
 process that generates them

---
 .../alsuq/generator/GeneratorFactory.hpp      |  7 ++-
 alsuq/include/alsuq/generator/STLMersenne.hpp | 22 +++++--
 alsuq/src/config/Setup.cpp                    | 18 +++++-
 alsuq/src/generator/GeneratorFactory.cpp      |  6 +-
 alsuq/src/generator/STLMersenne.cpp           | 63 ++++---------------
 5 files changed, 56 insertions(+), 60 deletions(-)

diff --git a/alsuq/include/alsuq/generator/GeneratorFactory.hpp b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
index 65bca59..4dc45ca 100644
--- a/alsuq/include/alsuq/generator/GeneratorFactory.hpp
+++ b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
@@ -27,11 +27,16 @@ public:
     //! \param name the name of the generator
     //! \param dimensions the number of dimensions to use
     //! \param numberVariables number of random variables to draw (relevant for QMC)
+    //! \param offset the number of dimensions of the other generators that come before this one
+    //! \param totalDimensions the number of dimensions of all generators that should be
+    //!                        independent together (0: only this one)
     //! \return the new generator
     //!
     std::shared_ptr<Generator> makeGenerator(const std::string& name,
         const size_t dimensions,
-        const size_t numberVariables
+        const size_t numberVariables,
+        const size_t offset = 0,
+        const size_t totalDimensions = 0
     );
 
 
diff --git a/alsuq/include/alsuq/generator/STLMersenne.hpp b/alsuq/include/alsuq/generator/STLMersenne.hpp
index 821213b..f8115f5 100644
--- a/alsuq/include/alsuq/generator/STLMersenne.hpp
+++ b/alsuq/include/alsuq/generator/STLMersenne.hpp
@@ -22,21 +22,33 @@ namespace generator {
 
 //! Uses the C++ STL implementation to generate random numbers
 //!
-//! @todo This needs to be fixed for multiple users (ie. when multiple
-//! instances uses this, it will not work properly with the sample fast forwarding)
+//! All generators of a run share the one sequence of random numbers of the
+//! default seed. Sample k uses the totalDimensions numbers starting at
+//! k * totalDimensions, and each generator uses its own range of these. The
+//! value only depends on the component and the sample, not on what was
+//! generated before.
 class STLMersenne : public Generator {
 public:
-    STLMersenne(size_t dimension);
+    //! @param dimension the number of dimensions of this generator
+    //! @param offset the number of dimensions of the generators before this one
+    //! @param totalDimensions the number of dimensions of all generators of the
+    //!                        run together (0: only this one)
+    STLMersenne(size_t dimension, size_t offset = 0, size_t totalDimensions = 0);
 
     //! Generates the next random number
     real generate(size_t component, size_t sample) override;
 private:
 
 
-    std::pair<std::mt19937_64, long>& generator;
+    std::mt19937_64 generator;
+
+    //! The number of random numbers drawn so far
+    size_t position = 0;
     std::uniform_real_distribution<real> distribution{0.0, 1.0};
 
-    const long dimension;
+    const size_t dimension;
+    const size_t offset;
+    const size_t totalDimensions;
 };
 } // namespace generator
 } // namespace alsuq
diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 3e4e382..25e33df 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -159,6 +159,22 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     generator::GeneratorFactory generatorFactory;
     distribution::DistributionFactory distributionFactory;
 
+    // The parameters share one sequence of random numbers, and each of them uses
+    // its own part of it. The order is the one the samples are generated in.
+    std::map<std::string, size_t> offsets;
+    size_t totalLength = 0;
+
+    for (auto parameterNode : parametersNode) {
+        offsets[parameterNode.second.get<std::string>("name")] =
+            parameterNode.second.get<size_t>("length");
+    }
+
+    for (auto& offset : offsets) {
+        const size_t length = offset.second;
+        offset.second = totalLength;
+        totalLength += length;
+    }
+
     for (auto parameterNode : parametersNode) {
         auto name = parameterNode.second.get<std::string>("name");
         auto length = parameterNode.second.get<size_t>("length");
@@ -182,7 +198,7 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
 
 
         auto generator = generatorFactory.makeGenerator(generatorName, length,
-                numberOfSamples);
+                numberOfSamples, offsets[name], totalLength);
         generators[name] = std::make_pair(length, std::make_pair(generator,
                     distribution));
     }
diff --git a/alsuq/src/generator/GeneratorFactory.cpp b/alsuq/src/generator/GeneratorFactory.cpp
index 3996f47..90f217a 100644
--- a/alsuq/src/generator/GeneratorFactory.cpp
+++ b/alsuq/src/generator/GeneratorFactory.cpp
@@ -23,12 +23,14 @@ namespace generator {
 std::shared_ptr<Generator> GeneratorFactory::makeGenerator(
     const std::string& name,
     const size_t dimensions,
-    const size_t numberVariables
+    const size_t numberVariables,
+    const size_t offset,
+    const size_t totalDimensions
 ) {
 
     if (name == "stlmersenne") {
         return std::dynamic_pointer_cast<Generator>(std::make_shared<STLMersenne>
-                (dimensions));
+                (dimensions, offset, totalDimensions));
     } else {
         THROW("Unknown generator " << name);
     }
diff --git a/alsuq/src/generator/STLMersenne.cpp b/alsuq/src/generator/STLMersenne.cpp
index 0480aa8..df52d4b 100644
--- a/alsuq/src/generator/STLMersenne.cpp
+++ b/alsuq/src/generator/STLMersenne.cpp
@@ -19,70 +19,31 @@
 
 namespace alsuq {
 namespace generator {
-namespace {
-// We need to make sure we have a single generator
-// so that we generate independent samples
-std::pair<std::mt19937_64, long>& getGeneratorInstance() {
-    static std::pair<std::mt19937_64, long> generator;
-
-    return generator;
-}
-}
 
-
-STLMersenne::STLMersenne(size_t dimension)
-    : generator(getGeneratorInstance()), dimension(dimension) {
+STLMersenne::STLMersenne(size_t dimension, size_t offset,
+    size_t totalDimensions)
+    : dimension(dimension), offset(offset),
+      totalDimensions(totalDimensions == 0 ? offset + dimension : totalDimensions) {
 
 }
 
 real STLMersenne::generate(size_t component, size_t sample) {
-
-    if (long(component) >= long(dimension)) {
+    if (component >= dimension) {
         THROW("Component given higher than dimension. component = "
             << component << ", dimension = " << dimension);
     }
 
+    const size_t nextPosition = sample * totalDimensions + offset + component;
 
-    if (generator.second / long(dimension) < long(sample)) {
-
-
-      const auto samplesToBeAdded = (long(sample)) * dimension -
-            generator.second;
-
-        ALSVINN_LOG(INFO, "(not matching sample) Discarding " << samplesToBeAdded <<
-            " samples"
-            << ", generatedSamples = " << generator.second);
-        generator.first.discard(samplesToBeAdded);
-        ALSVINN_LOG(INFO, "Done discarding " << samplesToBeAdded
-            << " samples:(\n\tsample = " << sample
-            << "\n\tcomponent = " << component
-            << "\n\tdimension = " << dimension
-            << "\n\tgenerator.second / long(dimension) = " << generator.second /
-            long(dimension) << "\n)");
-        generator.second += samplesToBeAdded;
-    }
-
-    if (generator.second % long(dimension) < long(component)) {
-        const auto samplesToBeAdded = long(component) - long(generator.second %
-                dimension);
-        ALSVINN_LOG(INFO, "(not matching component) Discarding " << samplesToBeAdded <<
-            " samples"
-            << ", generatedSamples = " << generator.second);
-        generator.first.discard(samplesToBeAdded);
-        ALSVINN_LOG(INFO, "Done discarding " << samplesToBeAdded
-            << " samples (\n\tsample = " << sample
-            << "\n\tcomponent = " << component
-            << "\n\tdimension = " << dimension
-            << "\n\tgenerator.second % long(dimension) = " << (generator.second %
-                long(dimension)) << "\n)");
-
-        generator.second += samplesToBeAdded;
+    if (nextPosition < position) {
+        generator.seed();
+        position = 0;
     }
 
-    generator.second++;
+    generator.discard(nextPosition - position);
+    position = nextPosition + 1;
 
-    return distribution(generator.first);
+    return distribution(generator);
 }
-
 }
 }
-- 
2.43.0


From b9711aa980d1793f1010d46ee65c24b2ce2e2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 43/84] fix: the bounds of a distribution given in the
 configuration are used

---
 alsuq/src/config/Setup.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 25e33df..413eb42 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -181,15 +181,18 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
         auto type = parameterNode.second.get<std::string>("type");
 
         distribution::Parameters parametersToDistribution(parameterNode.second);
-        parametersToDistribution.addDoubleParameter("lower", 0);
-        parametersToDistribution.addDoubleParameter("upper", 1);
 
-        parametersToDistribution.addDoubleParameter("a", 0);
-        parametersToDistribution.addDoubleParameter("b", 1);
+        // The defaults must not replace what the configuration gives
+        const std::map<std::string, real> defaultParameters = {
+            {"lower", 0}, {"upper", 1}, {"a", 0}, {"b", 1}, {"mean", 0}, {"sd", 1}
+        };
 
-
-        parametersToDistribution.addDoubleParameter("mean", 0);
-        parametersToDistribution.addDoubleParameter("sd", 1);
+        for (const auto& defaultParameter : defaultParameters) {
+            if (!parametersToDistribution.contains(defaultParameter.first)) {
+                parametersToDistribution.addDoubleParameter(defaultParameter.first,
+                    defaultParameter.second);
+            }
+        }
 
         auto distribution = distributionFactory.createDistribution(type,
                 length,
-- 
2.43.0


From a52c03c3f426a0615c61236eaaacfa104b07979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 44/84] fix: netCDF axes in the order the data is stored

---
 alsfvm/src/io/NetCDFMPIWriter.cpp | 11 +++++++++--
 alsfvm/src/io/NetCDFWriter.cpp    |  7 +++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/NetCDFMPIWriter.cpp b/alsfvm/src/io/NetCDFMPIWriter.cpp
index 2e51280..77acac3 100644
--- a/alsfvm/src/io/NetCDFMPIWriter.cpp
+++ b/alsfvm/src/io/NetCDFMPIWriter.cpp
@@ -120,6 +120,13 @@ NetCDFMPIWriter::dimension_vector NetCDFMPIWriter::createDimensions(
     dimensions[1] = ydim;
     dimensions[2] = zdim;
 
+    // The data is stored with x running fastest, netcdf wants the fastest index last.
+    if (grid.getGlobalSize().z > 1) {
+        std::swap(dimensions[0], dimensions[2]);
+    } else if (grid.getGlobalSize().y > 1) {
+        std::swap(dimensions[0], dimensions[1]);
+    }
+
     return dimensions;
 }
 
@@ -195,13 +202,13 @@ void NetCDFMPIWriter::writeMemory(netcdf_raw_ptr baseGroup,
     auto localSize = alsutils::mpi::to_mpi_offset(grid.getDimensions());
 
     // we need to exhcange the order since netcdf uses y major.
-    if (grid.getActiveDimension() == 2) {
+    if (grid.getGlobalSize().z == 1 && grid.getGlobalSize().y > 1) {
         std::swap(globalPosition[0], globalPosition[1]);
         std::swap(localSize[0], localSize[1]);
     }
 
     // we need to exhcange the order since netcdf uses z major.
-    if (grid.getActiveDimension() == 3) {
+    if (grid.getGlobalSize().z > 1) {
         std::swap(globalPosition[0], globalPosition[2]);
         std::swap(localSize[0], localSize[2]);
 
diff --git a/alsfvm/src/io/NetCDFWriter.cpp b/alsfvm/src/io/NetCDFWriter.cpp
index dbd0ebd..7066d22 100644
--- a/alsfvm/src/io/NetCDFWriter.cpp
+++ b/alsfvm/src/io/NetCDFWriter.cpp
@@ -88,6 +88,13 @@ std::array<netcdf_raw_ptr, 3> NetCDFWriter::createDimensions(
     dimensions[1] = ydim;
     dimensions[2] = zdim;
 
+    // The data is stored with x running fastest, netcdf wants the fastest index last.
+    if (volume.getNumberOfZCells() > 1) {
+        std::swap(dimensions[0], dimensions[2]);
+    } else if (volume.getNumberOfYCells() > 1) {
+        std::swap(dimensions[0], dimensions[1]);
+    }
+
     return dimensions;
 
 }
-- 
2.43.0


From 4c0e0e57fd1f172c3dd1ff5ac99d683ce8463d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 45/84] fix: pass the process number and count to python and
 library writers

---
 alsfvm/src/io/MpiWriterFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/MpiWriterFactory.cpp b/alsfvm/src/io/MpiWriterFactory.cpp
index b45cfc2..c7267f9 100644
--- a/alsfvm/src/io/MpiWriterFactory.cpp
+++ b/alsfvm/src/io/MpiWriterFactory.cpp
@@ -41,9 +41,9 @@ alsfvm::shared_ptr<Writer> MpiWriterFactory::createWriter(
                 configuration->getCommunicator(),
                 configuration->getInfo()));
     } else if (name == "python") {
-        writer.reset(new PythonScript(baseFilename, parameters, configuration));
+        writer.reset(new PythonScript(baseFilename, parameterCopy, configuration));
     } else if (name == "dll") {
-        writer.reset(new DLLWriter(baseFilename, parameters, configuration));
+        writer.reset(new DLLWriter(baseFilename, parameterCopy, configuration));
     } else {
         THROW("Unknown writer " << name << std::endl << "Does not have MPI support.");
     }
-- 
2.43.0


From 21252fa64e8623f16efa23ee1ef354f1f03b822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 46/84] fix: refuse layouts with a negative number of processes

---
 alsfvm/src/mpi/domain/CartesianDecomposition.cpp | 3 ++-
 alsuq/src/mpi/SimpleLoadBalancer.cpp             | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
index 267bc7f..5436c75 100644
--- a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
+++ b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
@@ -50,7 +50,8 @@ DomainInformationPtr CartesianDecomposition::decompose(ConfigurationPtr
     // the number of processors to use in the x direction divides the number
     // of cells in the x direction, and so on.
     for (size_t i = 0; i < dimensions.size(); ++i) {
-        if (dimensions[i] % numberOfProcessors[i] != 0) {
+        if (numberOfProcessors[i] < 1
+            || dimensions[i] % numberOfProcessors[i] != 0) {
             THROW("Error in domain decompositon. In direction " << i << "\n"
                 << "\tnumberOfProcessors assigned: " << numberOfProcessors[i] << "\n"
                 << "\tnumberOfCells assigned      : " << dimensions[i] << "\n");
diff --git a/alsuq/src/mpi/SimpleLoadBalancer.cpp b/alsuq/src/mpi/SimpleLoadBalancer.cpp
index 4667def..6a1d45c 100644
--- a/alsuq/src/mpi/SimpleLoadBalancer.cpp
+++ b/alsuq/src/mpi/SimpleLoadBalancer.cpp
@@ -33,6 +33,14 @@ ConfigurationPtr, ConfigurationPtr> SimpleLoadBalancer::loadBalance(
 
     size_t totalNumberOfProcesses = mpiConfig.getNumberOfProcesses();
 
+    if (multiSample < 1 || multiSpatial.x < 1 || multiSpatial.y < 1
+        || multiSpatial.z < 1) {
+        THROW("The number of processors has to be positive in the sample direction and in each "
+            << "spatial direction. We were given:\n"
+            << "\tmultiSample: " << multiSample << "\n"
+            << "\tmultiSpatial: " << multiSpatial);
+    }
+
     if (multiSample * multiSpatial.x * multiSpatial.y  * multiSpatial.z !=
         int(totalNumberOfProcesses)) {
         THROW("The number of processors given (" << totalNumberOfProcesses
-- 
2.43.0


From 30ebfc8d1212496a3790e0f862a7f74c6a5a7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 47/84] fix: refuse counts of saves and windows that are not
 positive

---
 alsfvm/src/config/SimulatorSetup.cpp          | 32 ++++++---
 .../include/alsutils/config/read_numbers.hpp  | 70 +++++++++++++++++++
 2 files changed, 93 insertions(+), 9 deletions(-)
 create mode 100644 alsutils/include/alsutils/config/read_numbers.hpp

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 1435d1f..388ae30 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -36,6 +36,7 @@
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
 #include <set>
 #include "alsutils/log.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include <algorithm>
 
 #ifdef ALSVINN_USE_MPI
@@ -370,7 +371,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
         const auto& writerNode = configuration.get_child("fvm.writer");
 
         if ( writerNode.find("numberOfSaves") != writerNode.not_found() ) {
-            size_t numberOfSaves = writerNode.get<size_t>("numberOfSaves");
+            size_t numberOfSaves = alsutils::config::readCount(writerNode,
+                        "numberOfSaves");
             real endTime = readEndTime(configuration);
             real timeInterval = endTime / numberOfSaves;
 
@@ -381,8 +383,10 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
             }
 
             if (writerNode.find("numberOfCoarseSaves") != writerNode.not_found()) {
-                int numberOfCoarseSaves = writerNode.get<size_t>("numberOfCoarseSaves");
-                int numberOfSkips = writerNode.get<size_t>("numberOfSkips");
+                int numberOfCoarseSaves = alsutils::config::readCount(writerNode,
+                        "numberOfCoarseSaves", 0);
+                int numberOfSkips = alsutils::config::readCount(writerNode,
+                        "numberOfSkips", 0);
                 return alsfvm::shared_ptr<io::Writer>(new io::CoarseGrainingIntervalWriter(
                             baseWriter,
                             timeInterval,
@@ -393,10 +397,12 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
 
             return alsfvm::shared_ptr<io::Writer>(new io::FixedIntervalWriter(baseWriter,
                         timeInterval, endTime, writeInitialTimestep));
-        } else if (writerNode.find("timeRadius") != writerNode.not_found()) {
+        } else if (writerNode.find("time") != writerNode.not_found()
+            || writerNode.find("timeRadius") != writerNode.not_found()) {
 
             const real time = writerNode.get<real>("time");
-            const real timeRadius = writerNode.get<real>("timeRadius");
+            const real timeRadius = alsutils::config::requirePositive("timeRadius",
+                    writerNode.get<real>("timeRadius"));
 
             auto timeIntegratedWriter = alsfvm::shared_ptr<io::Writer>
                 (new io::TimeIntegratedWriter(baseWriter,
@@ -404,7 +410,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
                         timeRadius));
 
             if (writerNode.find("numberOfSnapshots") != writerNode.not_found()) {
-                size_t numberOfSnapshots = writerNode.get<size_t>("numberOfSnapshots");
+                size_t numberOfSnapshots = alsutils::config::readCount(writerNode,
+                            "numberOfSnapshots");
                 real timeInterval = timeRadius / numberOfSnapshots;
 
                 return alsfvm::shared_ptr<io::Writer>(new io::FixedIntervalWriter(
@@ -416,6 +423,10 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
             return timeIntegratedWriter;
         }
 
+        if (writerNode.find("numberOfSnapshots") != writerNode.not_found()) {
+            THROW("The writer has a numberOfSnapshots, but no time and timeRadius");
+        }
+
         return baseWriter;
     }
 
@@ -590,7 +601,8 @@ std::vector<io::WriterPointer> SimulatorSetup::createFunctionals(
 
             if (functional.second.find("time") != functional.second.not_found()) {
                 real time = functional.second.get<real>("time");
-                real timeRadius = functional.second.get<real>("timeRadius");
+                real timeRadius = alsutils::config::requirePositive("timeRadius",
+                        functional.second.get<real>("timeRadius"));
 
 
 
@@ -602,7 +614,8 @@ std::vector<io::WriterPointer> SimulatorSetup::createFunctionals(
 
                 if (functional.second.find("numberOfSnapshots") !=
                     functional.second.not_found()) {
-                    size_t numberOfSnapshots = functional.second.get<size_t>("numberOfSnapshots");
+                    size_t numberOfSnapshots = alsutils::config::readCount(functional.second,
+                            "numberOfSnapshots");
                     real timeInterval = timeRadius / numberOfSnapshots;
 
                     timeIntegrationFunctional = alsfvm::shared_ptr<io::Writer>
@@ -616,7 +629,8 @@ std::vector<io::WriterPointer> SimulatorSetup::createFunctionals(
                     (timeIntegrationFunctional));
             } else if (functional.second.find("numberOfSaves") !=
                 functional.second.not_found()) {
-                size_t numberOfSaves = functional.second.get<size_t>("numberOfSaves");
+                size_t numberOfSaves = alsutils::config::readCount(functional.second,
+                        "numberOfSaves");
                 real endTime = readEndTime(configuration);
                 real timeInterval = endTime / numberOfSaves;
 
diff --git a/alsutils/include/alsutils/config/read_numbers.hpp b/alsutils/include/alsutils/config/read_numbers.hpp
new file mode 100644
index 0000000..93cff01
--- /dev/null
+++ b/alsutils/include/alsutils/config/read_numbers.hpp
@@ -0,0 +1,70 @@
+/* Copyright (c) 2018 ETH Zurich, Kjetil Olsen Lye
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <boost/property_tree/ptree.hpp>
+#include <cmath>
+#include <string>
+#include "alsutils/error/Exception.hpp"
+#include "alsutils/types.hpp"
+
+namespace alsutils {
+namespace config {
+
+//! Reads a whole number from the configuration.
+//! \note throws if the value is not a whole number, or is less than minimum
+inline int readCount(const boost::property_tree::ptree& node,
+    const std::string& name, int minimum = 1) {
+    const int value = node.get<int>(name);
+
+    if (value < minimum) {
+        THROW("Unsupported value for " << name << ": " << value
+            << ", it has to be at least " << minimum);
+    }
+
+    return value;
+}
+
+//! Throws if the direction is not one of 0, 1 and 2 (x, y and z)
+inline int requireDirection(int direction) {
+    if (direction < 0 || direction > 2) {
+        THROW("Unsupported direction: " << direction);
+    }
+
+    return direction;
+}
+
+//! Throws if the whole number read for the given name is not positive
+inline int requirePositiveCount(const std::string& name, int value) {
+    if (value < 1) {
+        THROW("Unsupported value for " << name << ": " << value
+            << ", it has to be at least 1");
+    }
+
+    return value;
+}
+
+//! Throws if the value read for the given name is not a positive number
+inline real requirePositive(const std::string& name, real value) {
+    if (!std::isfinite(value) || value <= 0) {
+        THROW("Unsupported value for " << name << ": " << value
+            << ", it has to be positive");
+    }
+
+    return value;
+}
+
+} // namespace config
+} // namespace alsutils
-- 
2.43.0


From 7a5ec07f082385ec8e224da4ed6c4d5f260484eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 48/84] fix: refuse grids without cells, extent or three
 components

---
 alsfvm/src/config/SimulatorSetup.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 388ae30..f1cff91 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -75,6 +75,10 @@ vec3<T> parseVector(const std::string& vectorAsString) {
     std::vector<std::string> splitString;
     boost::split(splitString, vectorAsString, boost::is_any_of("\t "));
 
+    if (splitString.size() != 3) {
+        THROW("Expected three components, got '" << vectorAsString << "'");
+    }
+
     T a = boost::lexical_cast<T>(splitString[0]);
     T b = boost::lexical_cast<T>(splitString[1]);
     T c = boost::lexical_cast<T>(splitString[2]);
@@ -273,6 +277,20 @@ alsfvm::shared_ptr<grid::Grid> SimulatorSetup::createGrid(
     auto upperCorner = parseVector<real>(upperCornerString);
     auto dimension = parseVector<int>(dimensionString);
 
+    for (int direction = 0; direction < 3; ++direction) {
+        const real lower = lowerCorner[direction];
+        const real upper = upperCorner[direction];
+        // The extent only matters in the directions the grid has
+        const bool active = direction == 0 || dimension[direction] > 1;
+
+        if (dimension[direction] < 1 || !std::isfinite(lower)
+            || !std::isfinite(upper) || (active && upper <= lower)) {
+            THROW("Unsupported grid, dimension = " << dimensionString
+                << ", lowerCorner = " << lowerCornerString
+                << ", upperCorner = " << upperCornerString);
+        }
+    }
+
     auto boundaryName = readBoundary(configuration);
 
     std::array<boundary::Type, 6> boundaryConditions;
-- 
2.43.0


From 0762ea27ada471b52c3e750953faf074951df383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 49/84] fix: refuse euler1 and euler2 on grids with more
 dimensions

---
 alsfvm/src/config/SimulatorSetup.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index f1cff91..8f2bd12 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -87,6 +87,16 @@ vec3<T> parseVector(const std::string& vectorAsString) {
 
 }
 
+//! The Euler equations have as many velocity components as the grid needs
+void checkEquationSupportsGrid(const std::string& equation,
+    const grid::Grid& grid) {
+    if ((equation == "euler1" && grid.getActiveDimension() > 1)
+        || (equation == "euler2" && grid.getActiveDimension() > 2)) {
+        THROW("The equation " << equation << " does not support a grid with "
+            << grid.getActiveDimension() << " dimensions");
+    }
+}
+
 template<class ParameterClass>
 void readAllEquationParameters(const boost::property_tree::ptree&
     configuration, ParameterClass& parameters) {
@@ -155,6 +165,7 @@ const std::string& filename) {
     real endTime = readEndTime(configuration);
 
     auto equation = readEquation(configuration);
+    checkEquationSupportsGrid(equation, *grid);
     auto fluxname = readFlux(configuration);
     auto reconstruction = readReconstruciton(configuration);
     auto cfl = readCFLNumber(configuration);
-- 
2.43.0


From 8a2a2c5cf98274a1fcc0682802ead71266946ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 50/84] fix: refuse options given more than once

---
 alsfvm/src/config/SimulatorSetup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 8f2bd12..45407a7 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -144,6 +144,11 @@ const std::string& filename) {
         if (supportedNodes.find(node.first) == supportedNodes.end()) {
             THROW("Unsupported configuration option " << node.first);
         }
+
+        if (configuration.get_child("fvm").count(node.first) > 1) {
+            THROW("The configuration option " << node.first
+                << " is given more than once");
+        }
     }
 
     auto grid = createGrid(configuration);
-- 
2.43.0


From c7cfd95ba3ff1d50c43a6b61b3ab7326a9864685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 51/84] fix: refuse end times, cfl numbers and gamma without a
 meaning

---
 alsfvm/src/config/SimulatorSetup.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 45407a7..21d819a 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -324,7 +324,13 @@ alsfvm::shared_ptr<grid::Grid> SimulatorSetup::createGrid(
 }
 
 real SimulatorSetup::readEndTime(const SimulatorSetup::ptree& configuration) {
-    return configuration.get<real>("fvm.endTime");
+    const real endTime = configuration.get<real>("fvm.endTime");
+
+    if (!std::isfinite(endTime) || endTime < 0) {
+        THROW("Unsupported value for endTime: " << endTime);
+    }
+
+    return endTime;
 }
 
 std::string SimulatorSetup::readEquation(const SimulatorSetup::ptree&
@@ -351,7 +357,8 @@ real SimulatorSetup::readCFLNumber(const SimulatorSetup::ptree& configuration) {
             return 0.475;
         }
     } else {
-        return boost::lexical_cast<real>(cflString);
+        return alsutils::config::requirePositive("cfl",
+                boost::lexical_cast<real>(cflString));
     }
 }
 
@@ -546,6 +553,12 @@ void SimulatorSetup::readEquationParameters(const SimulatorSetup::ptree&
                 (equationParameters);
 
             real gamma = configuration.get<real>("fvm.equationParameters.gamma");
+
+            if (!std::isfinite(gamma) || gamma <= 1) {
+                THROW("Unsupported value for gamma: " << gamma
+                    << ", it has to be greater than 1");
+            }
+
             eulerParameters.setGamma(gamma);
         } else if (equationName == "burgers") {
             // we do not need to do anything.
-- 
2.43.0


From cebc713adc383e077e98753b25047827aa6e5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 52/84] fix: initial data parameters have the length that was
 asked for

---
 alsfvm/src/config/SimulatorSetup.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 21d819a..1128464 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -523,10 +523,15 @@ init::Parameters SimulatorSetup::readParameters(const SimulatorSetup::ptree&
                     }
                 }
 
-                if (value.size() == 1) {
+                if (length > 0 && value.size() == 1) {
                     // We only got a single value
                     value.resize(length, value[0]);
                 }
+
+                if (length < 1 || value.size() != size_t(length)) {
+                    THROW("The parameter " << name << " has length " << length
+                        << ", but " << value.size() << " values were given");
+                }
             }
 
             parameters.addParameter(name, value);
-- 
2.43.0


From 3101aa3fc1b6317832a1762535d73ee56c61a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 53/84] fix: comments in the configuration are not options

---
 alsfvm/src/config/XMLParser.cpp | 4 +++-
 alsuq/src/config/Setup.cpp      | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/config/XMLParser.cpp b/alsfvm/src/config/XMLParser.cpp
index 63dca20..ae76c20 100644
--- a/alsfvm/src/config/XMLParser.cpp
+++ b/alsfvm/src/config/XMLParser.cpp
@@ -20,7 +20,9 @@ namespace alsfvm {
 namespace config {
 
 void XMLParser::parseFile(std::istream& stream, ptree& configuration) {
-    boost::property_tree::read_xml(stream, configuration);
+    // Comments are not options
+    boost::property_tree::read_xml(stream, configuration,
+        boost::property_tree::xml_parser::no_comments);
 }
 
 }
diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 413eb42..ce1b958 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -113,7 +113,8 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
     auto sampleGenerator = makeSampleGenerator(configuration);
 
@@ -126,7 +127,8 @@ size_t Setup::readNumberOfSamples(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readNumberOfSamples(configuration);
@@ -137,7 +139,8 @@ size_t Setup::readSampleStart(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readSampleStart(configuration);
-- 
2.43.0


From 583343a414e807bb3aac795ed360c42e2f83fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 54/84] fix: refuse unknown and repeated options and counts
 without a meaning in the uq part

---
 alsuq/src/config/Setup.cpp | 53 ++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index ce1b958..c592c35 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -30,6 +30,10 @@
 #include <boost/algorithm/string.hpp>
 #include "alsutils/log.hpp"
 #include "alsutils/timer/Timer.hpp"
+#include "alsutils/config/read_numbers.hpp"
+#include <cmath>
+#include <limits>
+#include <set>
 
 namespace alsuq {
 namespace config {
@@ -59,8 +63,25 @@ std::shared_ptr<run::Runner> Setup::makeRunner(const std::string& inputFilename,
     std::stringstream stream(configurationFileContent);
 
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
+
+    const std::set<std::string> supportedNodes = {
+        "samples", "sampleStart", "generator", "parameters", "stats"
+    };
+
+    for (const auto& node : configuration.get_child("uq")) {
+        if (supportedNodes.find(node.first) == supportedNodes.end()) {
+            THROW("Unsupported configuration option " << node.first << " in uq");
+        }
+
+        if (configuration.get_child("uq").count(node.first) > 1) {
+            THROW("The configuration option " << node.first
+                << " is given more than once");
+        }
+    }
+
     auto sampleGenerator = makeSampleGenerator(configuration);
     auto numberOfSamples = readNumberOfSamples(configuration);
     auto sampleStart = readSampleStart(configuration);
@@ -168,8 +189,13 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     size_t totalLength = 0;
 
     for (auto parameterNode : parametersNode) {
-        offsets[parameterNode.second.get<std::string>("name")] =
-            parameterNode.second.get<size_t>("length");
+        const auto name = parameterNode.second.get<std::string>("name");
+
+        if (offsets.find(name) != offsets.end()) {
+            THROW("The parameter " << name << " is given more than once");
+        }
+
+        offsets[name] = alsutils::config::readCount(parameterNode.second, "length");
     }
 
     for (auto& offset : offsets) {
@@ -180,7 +206,8 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
 
     for (auto parameterNode : parametersNode) {
         auto name = parameterNode.second.get<std::string>("name");
-        auto length = parameterNode.second.get<size_t>("length");
+        const size_t length = alsutils::config::readCount(parameterNode.second,
+                "length");
         auto type = parameterNode.second.get<std::string>("type");
 
         distribution::Parameters parametersToDistribution(parameterNode.second);
@@ -293,7 +320,8 @@ std::vector<std::shared_ptr<stats::Statistics> > Setup::createStatistics(
             }
 
 
-            auto numberOfSaves = statisticsNode.second.get<size_t>("numberOfSaves");
+            const size_t numberOfSaves = alsutils::config::readCount(
+                    statisticsNode.second, "numberOfSaves");
             ALSVINN_LOG(INFO, "statistics.numberOfSaves = " << numberOfSaves);
             real endTime = configuration.get<real>("fvm.endTime");
             real timeInterval = endTime / numberOfSaves;
@@ -305,7 +333,8 @@ std::vector<std::shared_ptr<stats::Statistics> > Setup::createStatistics(
         } else if (statisticsNode.second.find("time") !=
             statisticsNode.second.not_found()) {
             const real time = statisticsNode.second.get<real>("time");
-            const real radius = statisticsNode.second.get<real>("timeRadius");
+            const real radius = alsutils::config::requirePositive("timeRadius",
+                    statisticsNode.second.get<real>("timeRadius"));
 
             // The other statistics would collect every timestep of every sample
             if (name != "functional_time_integrated") {
@@ -328,7 +357,15 @@ std::vector<std::shared_ptr<stats::Statistics> > Setup::createStatistics(
 }
 
 size_t Setup::readNumberOfSamples(Setup::ptree& configuration) {
-    return configuration.get<real>("uq.samples");
+    const real numberOfSamples = configuration.get<real>("uq.samples");
+
+    if (!(numberOfSamples >= 1) || numberOfSamples != std::floor(numberOfSamples)
+        || numberOfSamples > std::numeric_limits<int>::max()) {
+        THROW("Unsupported value for samples: " << numberOfSamples
+            << ", it has to be a positive whole number");
+    }
+
+    return numberOfSamples;
 }
 
 size_t Setup::readSampleStart(Setup::ptree& configuration) {
@@ -336,7 +373,7 @@ size_t Setup::readSampleStart(Setup::ptree& configuration) {
 
     if (uq.find("sampleStart") != uq.not_found()) {
         ALSVINN_LOG(INFO, "sampleStart tag present");
-        return uq.get<size_t>("sampleStart");
+        return alsutils::config::readCount(uq, "sampleStart", 0);
     }
 
     return 0;
-- 
2.43.0


From 1c1806bf05896c1512c87d85759ee7fb875158e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 55/84] fix: refuse uniform distributions with the bounds
 interchanged

---
 alsuq/src/distribution/Uniform.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/distribution/Uniform.cpp b/alsuq/src/distribution/Uniform.cpp
index 35d46a4..be146c4 100644
--- a/alsuq/src/distribution/Uniform.cpp
+++ b/alsuq/src/distribution/Uniform.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsuq/distribution/Uniform.hpp"
+#include "alsutils/error/Exception.hpp"
 
 namespace alsuq {
 namespace distribution {
@@ -21,7 +22,9 @@ namespace distribution {
 Uniform::Uniform(const Parameters& parameters)
     : a(parameters.getDouble("lower")),
       b(parameters.getDouble("upper")) {
-
+    if (!(a <= b)) {
+        THROW("Uniform distribution with lower = " << a << " and upper = " << b);
+    }
 }
 
 real Uniform::generate(generator::Generator& generator, size_t component,
-- 
2.43.0


From 4c91d565d6e2bcc5d9880eddb944f714b70ab73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 56/84] fix: refuse the statistics that are not implemented
 before computing samples

---
 alsuq/src/stats/StructureSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/StructureSurface.cpp b/alsuq/src/stats/StructureSurface.cpp
index 934fa34..6c57e49 100644
--- a/alsuq/src/stats/StructureSurface.cpp
+++ b/alsuq/src/stats/StructureSurface.cpp
@@ -26,7 +26,8 @@ StructureSurface::StructureSurface(const StatisticsParameters& parameters)
       statisticsName ("structure_surface_" + std::to_string(p))
 
 {
-
+    // Do not wait until the first sample has been computed
+    THROW("structure_surface is not implemented yet");
 }
 
 std::vector<std::string> StructureSurface::getStatisticsNames() const {
-- 
2.43.0


From b53099d188593063aecccdd5f4d2bf617f4821cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 57/84] fix: refuse structure functions without direction or
 distance

---
 alsfvm/src/functional/StructureBase.cpp |  7 +++++--
 alsfvm/src/functional/StructureCube.cpp |  4 +++-
 alsuq/src/stats/StructureBasic.cpp      |  7 +++++--
 alsuq/src/stats/StructureCube.cpp       |  4 +++-
 alsuq/src/stats/StructureTwoPoints.cpp  | 10 +++++++---
 5 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index feebff0..ba96f45 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/StructureBase.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include "alsfvm/functional/structure_common.hpp"
 #include "alsfvm/functional/register_functional.hpp"
 #include "alsutils/log.hpp"
@@ -22,10 +23,12 @@ namespace alsfvm {
 namespace functional {
 
 StructureBase::StructureBase(const Functional::Parameters& parameters)
-    : direction(parameters.getInteger("direction")),
+    : direction(alsutils::config::requireDirection(
+              parameters.getInteger("direction"))),
       p(parameters.getDouble("p")),
       directionVector(make_direction_vector(direction)),
-      numberOfH(parameters.getInteger("numberOfH")) {
+      numberOfH(alsutils::config::requirePositiveCount("numberOfH",
+              parameters.getInteger("numberOfH"))) {
 
 }
 
diff --git a/alsfvm/src/functional/StructureCube.cpp b/alsfvm/src/functional/StructureCube.cpp
index e2a1a36..79ac273 100644
--- a/alsfvm/src/functional/StructureCube.cpp
+++ b/alsfvm/src/functional/StructureCube.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/StructureCube.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include "alsfvm/functional/structure_common.hpp"
 #include "alsfvm/functional/register_functional.hpp"
 
@@ -22,7 +23,8 @@ namespace functional {
 
 StructureCube::StructureCube(const Functional::Parameters& parameters)
     :  p(parameters.getDouble("p")),
-       numberOfH(parameters.getInteger("numberOfH"))
+       numberOfH(alsutils::config::requirePositiveCount("numberOfH",
+              parameters.getInteger("numberOfH")))
 
 {
 
diff --git a/alsuq/src/stats/StructureBasic.cpp b/alsuq/src/stats/StructureBasic.cpp
index 858fd12..af2492d 100644
--- a/alsuq/src/stats/StructureBasic.cpp
+++ b/alsuq/src/stats/StructureBasic.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsuq/stats/StructureBasic.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include "alsfvm/volume/volume_foreach.hpp"
 #include "alsuq/stats/stats_util.hpp"
 #include "alsfvm/boundary/ValueAtBoundary.hpp"
@@ -22,10 +23,12 @@ namespace stats {
 
 StructureBasic::StructureBasic(const StatisticsParameters& parameters)
     : StatisticsHelper(parameters),
-      direction(parameters.getInteger("direction")),
+      direction(alsutils::config::requireDirection(
+              parameters.getInteger("direction"))),
       p(parameters.getDouble("p")),
       directionVector(make_direction_vector(direction)),
-      numberOfH(parameters.getInteger("numberOfH")),
+      numberOfH(alsutils::config::requirePositiveCount("numberOfH",
+              parameters.getInteger("numberOfH"))),
       statisticsName ("structure_basic_" + std::to_string(p))
 
 {
diff --git a/alsuq/src/stats/StructureCube.cpp b/alsuq/src/stats/StructureCube.cpp
index c217318..5f21f7a 100644
--- a/alsuq/src/stats/StructureCube.cpp
+++ b/alsuq/src/stats/StructureCube.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsuq/stats/StructureCube.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include "alsfvm/volume/volume_foreach.hpp"
 #include "alsuq/stats/stats_util.hpp"
 #include "alsfvm/functional/structure_common.hpp"
@@ -23,7 +24,8 @@ namespace stats {
 StructureCube::StructureCube(const StatisticsParameters& parameters)
     : StatisticsHelper(parameters),
       p(parameters.getDouble("p")),
-      numberOfH(parameters.getInteger("numberOfH")),
+      numberOfH(alsutils::config::requirePositiveCount("numberOfH",
+              parameters.getInteger("numberOfH"))),
       statisticsName ("structure_cube_" + std::to_string(p))
 
 {
diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index ee1a678..f1ff0e7 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsuq/stats/StructureTwoPoints.hpp"
+#include "alsutils/config/read_numbers.hpp"
 #include "alsfvm/volume/volume_foreach.hpp"
 #include "alsuq/stats/stats_util.hpp"
 namespace alsuq {
@@ -21,11 +22,14 @@ namespace stats {
 
 StructureTwoPoints::StructureTwoPoints(const StatisticsParameters& parameters)
     : StatisticsHelper(parameters),
-      direction1(parameters.getInteger("direction1")),
-      direction2(parameters.getInteger("direction2")),
+      direction1(alsutils::config::requireDirection(
+              parameters.getInteger("direction1"))),
+      direction2(alsutils::config::requireDirection(
+              parameters.getInteger("direction2"))),
       directionVector1(make_direction_vector(direction1)),
       directionVector2(make_direction_vector(direction2)),
-      numberOfH(parameters.getInteger("numberOfH")),
+      numberOfH(alsutils::config::requirePositiveCount("numberOfH",
+              parameters.getInteger("numberOfH"))),
       statisticsName ("structure_2pt")
 
 {
-- 
2.43.0


From e796b0d06fc734a9e71560cc55b7f229db9ea417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 58/84] fix: functionals tell their writer that the simulation
 is over

---
 .../include/alsfvm/functional/IntervalFunctionalWriter.hpp   | 2 ++
 alsfvm/src/functional/IntervalFunctionalWriter.cpp           | 5 +++++
 alsfvm/src/functional/TimeIntegrationFunctional.cpp          | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/alsfvm/include/alsfvm/functional/IntervalFunctionalWriter.hpp b/alsfvm/include/alsfvm/functional/IntervalFunctionalWriter.hpp
index 2f04d82..de89a85 100644
--- a/alsfvm/include/alsfvm/functional/IntervalFunctionalWriter.hpp
+++ b/alsfvm/include/alsfvm/functional/IntervalFunctionalWriter.hpp
@@ -42,6 +42,8 @@ public:
         const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 
+    virtual void finalize(const grid::Grid& grid,
+        const simulator::TimestepInformation& timestepInformation) override;
 
 private:
     void makeVolumes(const grid::Grid& grid,
diff --git a/alsfvm/src/functional/IntervalFunctionalWriter.cpp b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
index c1da41c..0a4ff25 100644
--- a/alsfvm/src/functional/IntervalFunctionalWriter.cpp
+++ b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
@@ -64,6 +64,11 @@ void IntervalFunctionalWriter::write(const volume::Volume& conservedVariables,
 
 }
 
+void IntervalFunctionalWriter::finalize(const grid::Grid& grid,
+    const simulator::TimestepInformation& timestepInformation) {
+    writer->finalize(grid, timestepInformation);
+}
+
 void IntervalFunctionalWriter::makeVolumes(const grid::Grid& grid,
     const volume::Volume& volume) {
     functionalSize = functional->getFunctionalSize(grid);
diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 7c43600..7a65df5 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -55,6 +55,7 @@ void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
     // Nothing was ever computed (eg. the simulation ended before the first snapshot)
     if (!conservedVolume) {
+        writer->finalize(grid, timestepInformation);
         return;
     }
 
@@ -67,6 +68,7 @@ void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
         numberOfNodes * functionalSize);
 
     writer->write(*conservedVolume, smallerGrid, timestepInformation);
+    writer->finalize(smallerGrid, timestepInformation);
 }
 
 void TimeIntegrationFunctional::makeVolumes(const grid::Grid& grid,
-- 
2.43.0


From 5cd5b9dcdec230a446a0b05d2e7818791deb2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 59/84] fix: timers are used by several threads at once

---
 alsutils/include/alsutils/timer/TimerDatabase.hpp | 6 ++++++
 alsutils/src/timer/Timer.cpp                      | 2 +-
 alsutils/src/timer/TimerDatabase.cpp              | 7 +++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/timer/TimerDatabase.hpp b/alsutils/include/alsutils/timer/TimerDatabase.hpp
index ce888bb..80fbacf 100644
--- a/alsutils/include/alsutils/timer/TimerDatabase.hpp
+++ b/alsutils/include/alsutils/timer/TimerDatabase.hpp
@@ -1,9 +1,12 @@
 #pragma once
 #include "alsutils/timer/TimerData.hpp"
 #include <boost/property_tree/ptree.hpp>
+#include <mutex>
 namespace alsutils {
 namespace timer {
 
+//! Several threads are timed at once (eg. the exchange of cells and the
+//! computation of the flux), every access goes through the mutex.
 class TimerDatabase {
     TimerDatabase() {}
 public:
@@ -11,9 +14,11 @@ public:
 
     template<class ...T>
     TimerData& getTimerData(T... names) {
+        std::lock_guard<std::mutex> lock(mutex);
         return root.getTimerData(names...);
     }
 
+    void addTime(TimerData& data, double time);
 
     void print();
 
@@ -21,6 +26,7 @@ public:
 
 private:
     TimerData root;
+    mutable std::mutex mutex;
 };
 } // namespace timer
 } // namespace alsutils
diff --git a/alsutils/src/timer/Timer.cpp b/alsutils/src/timer/Timer.cpp
index 22a1351..80dcb72 100644
--- a/alsutils/src/timer/Timer.cpp
+++ b/alsutils/src/timer/Timer.cpp
@@ -9,7 +9,7 @@ Timer::~Timer() {
     auto duration = std::chrono::duration_cast<std::chrono::duration<double>>
         (end - start).count();
 
-    data.addTime(duration);
+    TimerDatabase::getInstance().addTime(data, duration);
 
 }
 
diff --git a/alsutils/src/timer/TimerDatabase.cpp b/alsutils/src/timer/TimerDatabase.cpp
index a3f4913..ce08d3b 100644
--- a/alsutils/src/timer/TimerDatabase.cpp
+++ b/alsutils/src/timer/TimerDatabase.cpp
@@ -9,13 +9,20 @@ TimerDatabase& TimerDatabase::getInstance() {
     return instance;
 }
 
+void TimerDatabase::addTime(TimerData& data, double time) {
+    std::lock_guard<std::mutex> lock(mutex);
+    data.addTime(time);
+}
+
 void TimerDatabase::print() {
+    std::lock_guard<std::mutex> lock(mutex);
     std::cout << "{\n";
     root.print("\t");
     std::cout << "}\n";
 }
 
 boost::property_tree::ptree TimerDatabase::getTimesAsPropertyTree() const {
+    std::lock_guard<std::mutex> lock(mutex);
     boost::property_tree::ptree propertyTree;
 
     propertyTree.add_child("allTimedEvents",
-- 
2.43.0


From 98d981d8428a9d616cb7dfe3c8a5181c737560e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 60/84] fix: the queue of volumes does not reuse volumes that
 are still waiting

---
 alsfvm/src/io/QueueWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alsfvm/src/io/QueueWriter.cpp b/alsfvm/src/io/QueueWriter.cpp
index afcb431..939ea13 100644
--- a/alsfvm/src/io/QueueWriter.cpp
+++ b/alsfvm/src/io/QueueWriter.cpp
@@ -48,6 +48,8 @@ void QueueWriter::write(const volume::Volume& conservedVariables,
 
         conservedVariables.copyTo(*allocatedVolumes[nextIndex]);
         waitingVolumes.push(allocatedVolumes[nextIndex]);
+        // The volumes are used in turn, none is reused before it has been popped
+        nextIndex = (nextIndex + 1) % queueSize;
     }
     conditionVariable.notify_all();
 }
-- 
2.43.0


From 1217410d75a0eed3cf6bca9ee269610b2419820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 61/84] fix: reconstructions do not read cells that are being
 received

---
 alsfvm/src/reconstruction/NoReconstruction.cpp |  9 ++++++++-
 alsfvm/src/reconstruction/WENOCPU.cpp          | 14 ++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/alsfvm/src/reconstruction/NoReconstruction.cpp b/alsfvm/src/reconstruction/NoReconstruction.cpp
index b2b5b0e..466e21c 100644
--- a/alsfvm/src/reconstruction/NoReconstruction.cpp
+++ b/alsfvm/src/reconstruction/NoReconstruction.cpp
@@ -15,6 +15,7 @@
 
 #include "alsfvm/reconstruction/NoReconstruction.hpp"
 #include "alsfvm/volume/volume_foreach.hpp"
+#include <algorithm>
 #include "alsutils/timer/Timer.hpp"
 
 namespace alsfvm {
@@ -48,6 +49,12 @@ void NoReconstruction::performReconstruction(const volume::Volume&
     const ivec3& end) {
     ALSVINN_TIME_BLOCK(alsvinn, fvm, reconstruction);
 
+    // The other cells may be receiving data from other processes
+    const ivec3 offsetStart(std::max(start.x, 0), std::max(start.y, 0),
+        std::max(start.z, 0));
+    const ivec3 offsetEnd(std::max(-end.x, 0), std::max(-end.y, 0),
+        std::max(-end.z, 0));
+
     for (size_t var = 0; var < inputVariables.getNumberOfVariables(); var++) {
         auto pointerIn = inputVariables.getScalarMemoryArea(var)->getPointer();
         auto pointerLeft = leftOut.getScalarMemoryArea(var)->getPointer();
@@ -58,7 +65,7 @@ void NoReconstruction::performReconstruction(const volume::Volume&
 
             pointerLeft[index] = pointerIn[index];
             pointerRight[index] = pointerIn[index];
-        });
+        }, offsetStart, offsetEnd);
     }
 
 }
diff --git a/alsfvm/src/reconstruction/WENOCPU.cpp b/alsfvm/src/reconstruction/WENOCPU.cpp
index 567141a..c85f179 100644
--- a/alsfvm/src/reconstruction/WENOCPU.cpp
+++ b/alsfvm/src/reconstruction/WENOCPU.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/reconstruction/WENOCPU.hpp"
+#include <algorithm>
 #include "alsfvm/reconstruction/WENOCoefficients.hpp"
 #include "alsfvm/reconstruction/ENOCoefficients.hpp"
 #include <array>
@@ -98,13 +99,14 @@ void WENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
     assert((directionVector.y == 0) || (int(ny) > 2 * directionVector.y * order));
     assert((directionVector.z == 0) || (int(nz) > 2 * directionVector.z * order));
 
-    const size_t startX = directionVector.x * (order - 1);
-    const size_t startY = directionVector.y * (order - 1);
-    const size_t startZ = directionVector.z * (order - 1);
+    // The other cells may be receiving data from other processes
+    const size_t startX = std::max(start.x, 0) + directionVector.x * (order - 1);
+    const size_t startY = std::max(start.y, 0) + directionVector.y * (order - 1);
+    const size_t startZ = std::max(start.z, 0) + directionVector.z * (order - 1);
 
-    const size_t endX = nx - directionVector.x * (order - 1);
-    const size_t endY = ny - directionVector.y * (order - 1);
-    const size_t endZ = nz - directionVector.z * (order - 1);
+    const size_t endX = nx - std::max(-end.x, 0) - directionVector.x * (order - 1);
+    const size_t endY = ny - std::max(-end.y, 0) - directionVector.y * (order - 1);
+    const size_t endZ = nz - std::max(-end.z, 0) - directionVector.z * (order - 1);
 
 
 
-- 
2.43.0


From bbe24a512cf0ad8b63d8ff0a9fab7539b51de698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 62/84] fix: keep accepting counts beyond the range of int

---
 alsutils/include/alsutils/config/read_numbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsutils/include/alsutils/config/read_numbers.hpp b/alsutils/include/alsutils/config/read_numbers.hpp
index 93cff01..4849fec 100644
--- a/alsutils/include/alsutils/config/read_numbers.hpp
+++ b/alsutils/include/alsutils/config/read_numbers.hpp
@@ -25,9 +25,9 @@ namespace config {
 
 //! Reads a whole number from the configuration.
 //! \note throws if the value is not a whole number, or is less than minimum
-inline int readCount(const boost::property_tree::ptree& node,
+inline long long readCount(const boost::property_tree::ptree& node,
     const std::string& name, int minimum = 1) {
-    const int value = node.get<int>(name);
+    const long long value = node.get<long long>(name);
 
     if (value < minimum) {
         THROW("Unsupported value for " << name << ": " << value
-- 
2.43.0


From f45a5f848774b14b9cdef12b94a33c5920ef5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 63/84] fix: keep the attributes of repeated configuration
 nodes apart

---
 alsfvm/src/io/netcdf_write_attributes.cpp          | 11 +++++++++++
 alsfvm/src/io/parallel_netcdf_write_attributes.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/alsfvm/src/io/netcdf_write_attributes.cpp b/alsfvm/src/io/netcdf_write_attributes.cpp
index 435de7a..9b34e19 100644
--- a/alsfvm/src/io/netcdf_write_attributes.cpp
+++ b/alsfvm/src/io/netcdf_write_attributes.cpp
@@ -18,6 +18,8 @@
 #include <pnetcdf.h>
 #include "alsutils/make_basic_report.hpp"
 #include <iostream>
+#include <map>
+#include <string>
 namespace alsfvm {
 namespace io {
 
@@ -30,8 +32,17 @@ void netcdfWriteAttributes(netcdf_raw_ptr varid,
         NETCDF_SAFE_CALL(nc_put_att_text(varid, NC_GLOBAL, basename.c_str(),
                 data.size(), data.c_str()));
     } else {
+        // Nodes with the same name (eg. several functionals) would overwrite each
+        // other, so all but the first get a number appended.
+        std::map<std::string, int> occurrences;
+
         for (auto& node : propertyTree) {
             std::string newName = basename + "." + node.first;
+            const int occurrence = occurrences[node.first]++;
+
+            if (occurrence > 0) {
+                newName += "_" + std::to_string(occurrence);
+            }
 
             netcdfWriteAttributes(varid, newName, node.second);
         }
diff --git a/alsfvm/src/io/parallel_netcdf_write_attributes.cpp b/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
index 1851b34..96d692d 100644
--- a/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
+++ b/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
@@ -18,6 +18,8 @@
 #include <pnetcdf.h>
 #include "alsutils/make_basic_report.hpp"
 #include <iostream>
+#include <map>
+#include <string>
 namespace alsfvm {
 namespace io {
 
@@ -30,8 +32,17 @@ void parallelNetcdfWriteAttributes(netcdf_raw_ptr varid,
         NETCDF_SAFE_CALL(ncmpi_put_att_text(varid, NC_GLOBAL, basename.c_str(),
                 data.size(), data.c_str()));
     } else {
+        // Nodes with the same name (eg. several functionals) would overwrite each
+        // other, so all but the first get a number appended.
+        std::map<std::string, int> occurrences;
+
         for (auto& node : propertyTree) {
             std::string newName = basename + "." + node.first;
+            const int occurrence = occurrences[node.first]++;
+
+            if (occurrence > 0) {
+                newName += "_" + std::to_string(occurrence);
+            }
 
             parallelNetcdfWriteAttributes(varid, newName, node.second);
         }
-- 
2.43.0


From 81a4ea54d76e1613db956b485d273ca848c97bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 64/84] fix: a failing HDF5 call is reported instead of ending
 the program

---
 alsfvm/include/alsfvm/io/hdf5_utils.hpp | 27 +++++++++++++++++++++++--
 alsfvm/src/io/HDF5Writer.cpp            |  3 ++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/hdf5_utils.hpp b/alsfvm/include/alsfvm/io/hdf5_utils.hpp
index 88fa00c..b2692a1 100644
--- a/alsfvm/include/alsfvm/io/hdf5_utils.hpp
+++ b/alsfvm/include/alsfvm/io/hdf5_utils.hpp
@@ -16,6 +16,7 @@
 #pragma once
 #include "alsutils/error/Exception.hpp"
 #include <hdf5.h>
+#include <exception>
 ///
 /// This file contains various utility functions for HDF5
 ///
@@ -68,11 +69,32 @@ public:
     ///
     inline HDF5Resource(hid_t hdf5Resource, delete_function deleter)
         : hdf5Resource(hdf5Resource), deleter(deleter) {
-        // empty
+        if (hdf5Resource < 0) {
+            THROW("HDF5 error, could not create or open a resource");
+        }
     }
 
     inline ~HDF5Resource() noexcept(false) {
-        HDF5_SAFE_CALL(deleter(hdf5Resource));
+        // Throwing while another exception is on its way would end the program
+        // without any message.
+        if (std::uncaught_exception()) {
+            if (!closed) {
+                deleter(hdf5Resource);
+            }
+        } else {
+            close();
+        }
+    }
+
+    ///
+    /// \brief close closes the resource. Needs to be called for resources held by
+    ///              a unique_ptr, which can not pass on an error.
+    ///
+    inline void close() {
+        if (!closed) {
+            closed = true;
+            HDF5_SAFE_CALL(deleter(hdf5Resource));
+        }
     }
 
     inline hid_t hid() {
@@ -87,6 +109,7 @@ private:
     void operator=(const HDF5Resource& other) {}
     const hid_t hdf5Resource;
     const delete_function deleter;
+    bool closed = false;
 
 };
 }
diff --git a/alsfvm/src/io/HDF5Writer.cpp b/alsfvm/src/io/HDF5Writer.cpp
index 78e7e3e..bcb0d4a 100644
--- a/alsfvm/src/io/HDF5Writer.cpp
+++ b/alsfvm/src/io/HDF5Writer.cpp
@@ -130,6 +130,7 @@ std::unique_ptr<HDF5Resource> HDF5Writer::createDatasetForMemory(
             filespace->hid(),
             H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), H5Dclose);
 
+    filespace->close();
 
     return dataset;
 }
@@ -195,7 +196,7 @@ void HDF5Writer::writeMemory(const volume::Volume& volume, size_t index,
 
     auto dataset = createDatasetForMemory(volume, index, name, file);
     writeMemoryToDataset(volume, index, name, dataset->hid(), accessList);
-
+    dataset->close();
 }
 
 void HDF5Writer::writeString(hid_t object, const std::string& name,
-- 
2.43.0


From 158671c9fed5820ce86e89e98b668d0b111b1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 65/84] fix: imports of initial data scripts do not replace the
 parameters

---
 alsfvm/src/init/PythonInitialData.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alsfvm/src/init/PythonInitialData.cpp b/alsfvm/src/init/PythonInitialData.cpp
index b43f607..a5873a4 100644
--- a/alsfvm/src/init/PythonInitialData.cpp
+++ b/alsfvm/src/init/PythonInitialData.cpp
@@ -108,9 +108,10 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
             snippet = false;
         }
 
-        functionStringStream << "from math import *" << std::endl;
-        functionStringStream << "try:\n    from numpy import *\nexcept:\n    pass" <<
-            std::endl;
+        // The imports have to come before the parameters are set, otherwise they
+        // would replace parameters of the same name (eg. gamma)
+        boost::python::exec("from math import *\n"
+            "try:\n    from numpy import *\nexcept:\n    pass\n", mainNamespace);
 
         if (snippet) {
             functionStringStream << "def initial_data(x, y, z, i, j, k, output):\n";
-- 
2.43.0


From f6625539d30dbe27fd30b0075f5e5022bdb51d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 66/84] fix: initial data scripts get the position of the cell
 in the whole grid

---
 alsfvm/src/init/PythonInitialData.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/init/PythonInitialData.cpp b/alsfvm/src/init/PythonInitialData.cpp
index a5873a4..8f2468b 100644
--- a/alsfvm/src/init/PythonInitialData.cpp
+++ b/alsfvm/src/init/PythonInitialData.cpp
@@ -257,7 +257,11 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
 
                 boost::python::dict outputMap;
 
-                initialValueFunction(x, y, z, i, j, k, outputMap);
+                // The grid might only be a part of the domain
+                initialValueFunction(x, y, z,
+                    i + grid.getGlobalPosition().x,
+                    j + grid.getGlobalPosition().y,
+                    k + grid.getGlobalPosition().z, outputMap);
 
                 // Loop through each variable and set it in the primitive variables:
                 for (size_t var = 0; var <  primitiveVolume.getNumberOfVariables(); ++var) {
-- 
2.43.0


From 4b4040d678644eae3261861f3e820ed97d8774a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 67/84] fix: library writers without a create function work and
 the delete function is called

---
 alsfvm/src/io/DLLWriter.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/alsfvm/src/io/DLLWriter.cpp b/alsfvm/src/io/DLLWriter.cpp
index 25aed9a..8693306 100644
--- a/alsfvm/src/io/DLLWriter.cpp
+++ b/alsfvm/src/io/DLLWriter.cpp
@@ -43,15 +43,27 @@ DLLWriter::DLLWriter(const std::string& basename,
         }
     }
 
-    auto createFunction =
-        boost::dll::import<void* (const char*, const char*, void*)>(filename,
-            createFunctionName);
-
-    dllData = createFunction("alsvinn",
-            (std::string("https://github.com/alsvinn/alsvinn git") +
-                alsutils::getVersionControlID()).c_str(),
-            parametersStruct
-        );
+    if (boost::algorithm::to_lower_copy(createFunctionName) != "none") {
+        auto createFunction =
+            boost::dll::import<void* (const char*, const char*, void*)>(filename,
+                createFunctionName);
+
+        dllData = createFunction("alsvinn",
+                (std::string("https://github.com/alsvinn/alsvinn git") +
+                    alsutils::getVersionControlID()).c_str(),
+                parametersStruct
+            );
+
+        // Configurations without a delete_function have always been accepted
+        if (parameters.contains("delete_function")) {
+            auto deleteFunctionName = parameters.getString("delete_function");
+
+            if (boost::algorithm::to_lower_copy(deleteFunctionName) != "none") {
+                deleteFunction = boost::dll::import<void(void*)>(filename,
+                        deleteFunctionName);
+            }
+        }
+    }
 
     auto newTimestepFunctionName =
         parameters.getString("new_timestep_function");
-- 
2.43.0


From 9e4e9f6918f36c08f58262e96e071495d76b707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 68/84] fix: library writers that ask for the communicator do
 not crash without one

---
 alsfvm/src/io/DLLWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/io/DLLWriter.cpp b/alsfvm/src/io/DLLWriter.cpp
index 8693306..570306e 100644
--- a/alsfvm/src/io/DLLWriter.cpp
+++ b/alsfvm/src/io/DLLWriter.cpp
@@ -87,7 +87,9 @@ DLLWriter::DLLWriter(const std::string& basename,
 
     auto setMpiCommFunctionName = parameters.getString("set_mpi_comm_function");
 
-    if (boost::algorithm::to_lower_copy(setMpiCommFunctionName) != "none") {
+    // Without MPI, there is no communicator to set
+    if (boost::algorithm::to_lower_copy(setMpiCommFunctionName) != "none"
+        && mpiConfigration) {
         auto setMpiCommFunction = boost::dll::import<void(DLLData, DLLData, MPI_Comm)>
             (filename, setMpiCommFunctionName);
 
-- 
2.43.0


From 5fbad704414c46996ace815b0d1cfedd692c7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 69/84] fix: errors in finalize of Python writers are reported

---
 alsfvm/src/io/PythonScript.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/io/PythonScript.cpp b/alsfvm/src/io/PythonScript.cpp
index 2bbbffb..4c755ec 100644
--- a/alsfvm/src/io/PythonScript.cpp
+++ b/alsfvm/src/io/PythonScript.cpp
@@ -100,7 +100,11 @@ void PythonScript::write(const volume::Volume& conservedVariables,
 void PythonScript::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
 
-    classInstance.attr("finalize")();
+    try {
+        classInstance.attr("finalize")();
+    } catch (boost::python::error_already_set&) {
+        HANDLE_PYTHON_EXCEPTION
+    }
 }
 
 void PythonScript::makeDatasets(const volume::Volume& conservedVariables) {
-- 
2.43.0


From 50cdcec68d7b97cb05387879dace717092a65ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 70/84] fix: library distributions are created on every process
 before they generate

---
 alsuq/src/distribution/DLLDistribution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alsuq/src/distribution/DLLDistribution.cpp b/alsuq/src/distribution/DLLDistribution.cpp
index c615c60..218f8dd 100644
--- a/alsuq/src/distribution/DLLDistribution.cpp
+++ b/alsuq/src/distribution/DLLDistribution.cpp
@@ -84,6 +84,12 @@ DLLDistribution::DLLDistribution(size_t numberOfSamples, size_t dimension,
         }
     }
 
+#ifdef ALSVINN_USE_MPI
+    // As documented: no process generates samples before every process has run
+    // its create function.
+    MPI_Barrier(MPI_COMM_WORLD);
+#endif
+
     auto generatorFunctionName = parameters.getString("generator_function");
     generatorFunction = boost::dll::import<real(void*, int, int, int, int, void*)>
         (filename, generatorFunctionName);
-- 
2.43.0


From d4cd93bbfae04153a98ffaacd8fbf56eabcd582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 71/84] fix: wrong command lines explain the usage instead of
 aborting

---
 alsuqcli/src/main.cpp   | 2 +-
 alsvinncli/src/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsuqcli/src/main.cpp b/alsuqcli/src/main.cpp
index 550e249..192093d 100644
--- a/alsuqcli/src/main.cpp
+++ b/alsuqcli/src/main.cpp
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
             store(command_line_parser(argc, argv).options(allOptions).positional(p).run(),
                 vm);
             notify(vm);
-        } catch (std::runtime_error& error) {
+        } catch (boost::program_options::error& error) {
             std::cout << error.what() << std::endl;
             std::cout << "Usage:\n\t" << argv[0] << " <options> <inputfile.xml>" <<
                 std::endl << std::endl;
diff --git a/alsvinncli/src/main.cpp b/alsvinncli/src/main.cpp
index 50938f5..55b5460 100644
--- a/alsvinncli/src/main.cpp
+++ b/alsvinncli/src/main.cpp
@@ -88,7 +88,7 @@ int main(int argc, char** argv) {
             store(command_line_parser(argc, argv).options(allOptions).positional(p).run(),
                 vm);
             notify(vm);
-        } catch (std::runtime_error& error) {
+        } catch (boost::program_options::error& error) {
             std::cout << error.what() << std::endl;
             std::cout << "Usage:\n\t" << argv[0] << " <options> <inputfile.xml>" <<
                 std::endl << std::endl;
-- 
2.43.0


From 80ab7c7d40c4b70524efead3beb6b875fb2e5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 72/84] fix: initial parameters in the Python front end no
 longer raise an error

---
 python/alsvinn/alsvinn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index dc14ce0..2299c0b 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -53,9 +53,10 @@ class Alsvinn(object):
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
                 parameter = {"name" : parameter_name, "length" : len(parameters[parameter_name])}
-                parameter["values"] = []
-                for value in parameters[key]:
-                    parameter["value"].append(value)
+                if parameter["length"] == 1:
+                    parameter["value"] = parameters[parameter_name][0]
+                else:
+                    parameter["values"] = list(parameters[parameter_name])
 
                 self.fvmSettings["initialData"]["parameters"].append(parameter)
 
-- 
2.43.0


From b8828033f72894d4466825c57d9465ea427385cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 73/84] fix: the Python front end copies the initial data
 script also when another one has its name

---
 python/alsvinn/alsvinn.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 2299c0b..becdf2c 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -29,6 +29,7 @@ class Alsvinn(object):
         self.fvmSettings = self.settings["fvm"]
         self.uqSettings=self.settings["uq"]
         self.data_path = data_path
+        self.initial_data_from_xml = False
         if xml_file != None:
             self.read_xml(xml_file)
         
@@ -49,6 +50,7 @@ class Alsvinn(object):
 
     def set_initial_data(self, python_file, parameters):
         self.fvmSettings["initialData"] = {"python" : python_file}
+        self.initial_data_from_xml = False
         if parameters != None:
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
@@ -83,6 +85,7 @@ class Alsvinn(object):
 
     def read_xml(self, xml_file):
         self.source_xml_path=xml_file
+        self.initial_data_from_xml = True
         document = xml.dom.minidom.parse(xml_file)
         configDocument = document.getElementsByTagName("config")[0]
         fvmDocument = configDocument.getElementsByTagName("fvm")[0]
@@ -149,9 +152,14 @@ class Alsvinn(object):
 
         newPythonFile = self.get_name() + '.py'
 
-        if settings["fvm"]["initialData"]["python"] != newPythonFile:
-            shutil.copyfile(os.path.join(os.path.dirname(self.source_xml_path), settings["fvm"]["initialData"]["python"]), newPythonFile)
-            settings["fvm"]["initialData"]["python"] = newPythonFile
+        pythonFile = settings["fvm"]["initialData"]["python"]
+        if self.initial_data_from_xml:
+            # the path is relative to the configuration it was read from
+            pythonFile = os.path.join(os.path.dirname(self.source_xml_path), pythonFile)
+
+        if os.path.realpath(pythonFile) != os.path.realpath(newPythonFile):
+            shutil.copyfile(pythonFile, newPythonFile)
+        settings["fvm"]["initialData"]["python"] = newPythonFile
 
         xmlObject = dicttoxml.dicttoxml( settings, custom_root='config', attr_type=False, item_func=self.__xml_item_func)
 
-- 
2.43.0


From d485e2ad745ef15f10cdcfb99c06719413adb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 74/84] fix: dimension and corners of the Python front end
 apply one by one to a configuration

---
 python/alsvinn/alsvinn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index becdf2c..f54cdc9 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -564,12 +564,13 @@ else:
 
     if dimension is not None and upper_corner is not None and lower_corner is not None:
         alsvinn_object.set_cartesian_grid(lower_corner, upper_corner, dimension)
-    elif dimension is not None:
-        alsvinn_object.set_dimension(dimension)
-    elif lower_corner is not None:
-        alsvinn_object.set_lower_corner(lower_corner)
-    elif upper_corner is not None:
-        alsvinn_object.set_upper_corner(upper_corner)
+    else:
+        if dimension is not None:
+            alsvinn_object.set_dimension(dimension)
+        if lower_corner is not None:
+            alsvinn_object.set_lower_corner(lower_corner)
+        if upper_corner is not None:
+            alsvinn_object.set_upper_corner(upper_corner)
     if initial_data_script != None:
         initial_data_file = name + ".py"
         with open(initial_data_file, "w") as f:
-- 
2.43.0


From 6ef59392c8717f933c9bf146a3e9895d7f6a4a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 75/84] fix: the Python front end's grids are the cell
 midpoints in the order of the data

---
 python/alsvinn/alsvinn.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index f54cdc9..5af1880 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -208,15 +208,15 @@ class Alsvinn(object):
 
             dictionary[key] = formatString.format(value[0], value[1], value[2])
 
+    def __midpoints(self, lower, upper, number_of_cells):
+        return lower + (upper - lower) * (numpy.arange(number_of_cells) + 0.5) / number_of_cells
+
     def get_line_segment(self):
         min_x = self.fvmSettings["grid"]["lowerCorner"][0]
         max_x = self.fvmSettings["grid"]["upperCorner"][0]
         nx = self.fvmSettings["grid"]["dimension"][0]
 
-        x = numpy.linspace(min_x, max_x, nx)
-        x+= 0.5*(x[1]-x[0])
-
-        return x
+        return self.__midpoints(min_x, max_x, nx)
 
     def get_2d_grid(self):
         min_x = self.fvmSettings["grid"]["lowerCorner"][0]
@@ -227,8 +227,8 @@ class Alsvinn(object):
         max_y = self.fvmSettings["grid"]["upperCorner"][1]
         ny = self.fvmSettings["grid"]["dimension"][1]
 
-        x, y = numpy.mgrid[min_x:max_x:nx*1j, min_y:max_y:ny*1j]
-
+        # the first axis of the data is the y direction
+        x, y = numpy.meshgrid(self.__midpoints(min_x, max_x, nx), self.__midpoints(min_y, max_y, ny))
 
         return x, y
     def get_dimension(self):
-- 
2.43.0


From a04610cf7c1a5d7e50585b9c10b7e86e687df448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 76/84] fix: the Python front end reads configurations with
 remarks

---
 python/alsvinn/alsvinn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 5af1880..265a488 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -367,7 +367,7 @@ class Alsvinn(object):
 
         for child in document.childNodes:
 
-            if child.nodeType == child.TEXT_NODE:
+            if child.nodeType != child.ELEMENT_NODE:
                 continue
             key = child.tagName
             values = []
@@ -378,7 +378,7 @@ class Alsvinn(object):
                     if possibleValue.nodeValue.strip() != '':
                         values.append(possibleValue)
                         textNode = True
-                else:
+                elif possibleValue.nodeType == child.ELEMENT_NODE:
                     values.append(possibleValue)
                     names.append(possibleValue.tagName)
 
-- 
2.43.0


From acb4650c6bc6b7bfc27b7f9dd6de31cad9324493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 77/84] fix: the Python front end reads numbers separated by
 any white space

---
 python/alsvinn/alsvinn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 265a488..9f6b6c3 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -123,7 +123,7 @@ class Alsvinn(object):
     def __make_float(self, text):
 
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return float(splitted[0])
         else:
@@ -134,7 +134,7 @@ class Alsvinn(object):
 
     def __make_int(self, text):
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return int(splitted[0])
         else:
-- 
2.43.0


From 98ec68193c8e04d10b00ff539e0bb561fa59bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 78/84] fix: parameters, statistics and functionals read from a
 configuration can be changed from Python

---
 python/alsvinn/alsvinn.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 9f6b6c3..b118b3b 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -43,6 +43,11 @@ class Alsvinn(object):
 
 
 
+    def __items(self, settings):
+        """The list of the items of a list as read from a configuration (a
+        dictionary when there are less than two of them)"""
+        return settings if type(settings) is list else list(settings.values())
+
     def __xml_item_func(self, parent_tag):
         return parent_tag[:-1]
     def set_fvm_value(self, key, value):
@@ -93,14 +98,15 @@ class Alsvinn(object):
             uqDocument = configDocument.getElementsByTagName("uq")[0]
             self.__readValues(self.uqSettings, uqDocument)
             
-            if not self.uqSettings['parameters']:
-                self.uqSettings['parameters'] = self.fvmSettings['initialData']['parameters']
-                self.uqSettings['parameters']['parameter']['type'] = 'uniform'
-                del self.uqSettings['parameters']['values']
-
-                
         self.__readValues(self.fvmSettings, fvmDocument)
 
+        if 'parameters' in self.uqSettings and not self.uqSettings['parameters']:
+            self.uqSettings['parameters'] = copy.deepcopy(self.fvmSettings['initialData']['parameters'])
+            for parameter in self.__items(self.uqSettings['parameters']):
+                parameter['type'] = 'uniform'
+                parameter.pop('value', None)
+                parameter.pop('values', None)
+
 
         # now we need to do some manual adjustments
         self.fvmSettings["grid"]["lowerCorner"] = self.__make_float(self.fvmSettings["grid"]["lowerCorner"])
@@ -407,7 +413,7 @@ class Alsvinn(object):
         if 'stats' not in self.uqSettings.keys():
             self.uqSettings['stats']  = []
         elif type(self.uqSettings['stats']) is not list:
-            self.uqSettings['stats'] = [self.uqSettings['statistics']['stat']]
+            self.uqSettings['stats'] = self.__items(self.uqSettings['stats'])
         self.uqSettings['stats'].append({'name' : statisticsName,
                                                 'numberOfSaves' : numberOfSaves,
                                                 "writeInitialTimestep" : int(writeInitialTimestep),
@@ -420,11 +426,12 @@ class Alsvinn(object):
         if 'functionals' not in self.fvmSettings.keys():
             self.fvmSettings['functionals']  = []
         elif type(self.fvmSettings['functionals']) is not list:
-            self.fvmSettings['functionals'] = [self.fvmSettings['functionals']['functional']]
+            self.fvmSettings['functionals'] = self.__items(self.fvmSettings['functionals'])
         self.fvmSettings['functionals'].append(functionalOptions)
 
     def set_distribution(self, distribution):
-        self.uqSettings['parameter']['parameter']['type']=distribution
+        for parameter in self.__items(self.uqSettings['parameters']):
+            parameter['type'] = distribution
 
     def set_diffusion(self, operator, reconstruction):
         self.fvmSettings['diffusion'] = {'name' : operator,
-- 
2.43.0


From f698f594a100df22ca7bec096747371a039919a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 79/84] fix: the Python front end uses the configuration it is
 given

---
 python/alsvinn/alsvinn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index b118b3b..960eb34 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -34,7 +34,8 @@ class Alsvinn(object):
             self.read_xml(xml_file)
         
         elif configuration != None:
-            self.fvmSettings = configuration
+            self.settings["fvm"] = configuration
+            self.fvmSettings = self.settings["fvm"]
         self.alsvinncli = alsvinncli
         self.prepend_alsvinncli = prepend_alsvinncli
         self.omp_num_threads=omp_num_threads
-- 
2.43.0


From aa29eda986ab78564c9a491a01115e34a7b22ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 80/84] fix: remove_fvm_writer leaves no empty writer behind

---
 python/alsvinn/alsvinn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 960eb34..f928541 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -70,7 +70,7 @@ class Alsvinn(object):
 
 
     def remove_fvm_writer(self):
-        self.fvmSettings["writer"] = None
+        self.fvmSettings.pop("writer", None)
 
     def set_equation_parameters(self, parameters):
         self.fvmSettings["equationParameters"] = parameters
-- 
2.43.0


From 614bb6e156097f398926f2ac952e67aafa6e26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 81/84] fix: the Python front end accepts an initial data file
 of the name of the run

---
 python/alsvinn/alsvinn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index f928541..1b2796b 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -585,7 +585,8 @@ else:
             f.write(initial_data_script)
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
     elif initial_data_file is not None:
-        shutil.copyfile(initial_data_file, name+'.py')
+        if os.path.realpath(initial_data_file) != os.path.realpath(name+'.py'):
+            shutil.copyfile(initial_data_file, name+'.py')
         initial_data_file=name+'.py'
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
     if equation_parameters is not None:
-- 
2.43.0


From 75a5c647fd91fe6b251b25c2d10d8bdda9393d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 82/84] fix: the Python front end removes its temporary script
 and not the user's

---
 python/alsvinn/alsvinn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 1b2796b..e04ff6c 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -508,7 +508,7 @@ def run(name=None, equation=None,
         if number_of_saves is None:
             number_of_saves = 1
 
-        if initial_data_file is None:
+        if initial_data_file is None and initial_data_script is None:
             with tempfile.NamedTemporaryFile(mode="w", delete=False, suffix='.py') as f: 
                 initial_data_file = f.name
                 initial_data_file_is_temporary = True
@@ -587,6 +587,8 @@ else:
     elif initial_data_file is not None:
         if os.path.realpath(initial_data_file) != os.path.realpath(name+'.py'):
             shutil.copyfile(initial_data_file, name+'.py')
+        if initial_data_file_is_temporary:
+            os.remove(initial_data_file)
         initial_data_file=name+'.py'
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
     if equation_parameters is not None:
@@ -617,8 +619,6 @@ else:
         alsvinn_object.set_diffusion(diffusion_operator, diffusion_reconstruction)
     alsvinn_object.run(multix=multix, multiy=multiy,multiz=multiz, uq=uq, multiSample=multiSample)
 
-    if initial_data_file_is_temporary:
-        os.remove(initial_data_file)
     return alsvinn_object
 
 
-- 
2.43.0


From 4d7dcd1d2c7903451384e085547575dd3609772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 83/84] fix: initial parameters apply to a configuration's own
 initial data script

---
 python/alsvinn/alsvinn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index e04ff6c..429106e 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -57,6 +57,9 @@ class Alsvinn(object):
     def set_initial_data(self, python_file, parameters):
         self.fvmSettings["initialData"] = {"python" : python_file}
         self.initial_data_from_xml = False
+        self.set_initial_parameters(parameters)
+
+    def set_initial_parameters(self, parameters):
         if parameters != None:
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
@@ -591,6 +594,8 @@ else:
             os.remove(initial_data_file)
         initial_data_file=name+'.py'
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
+    else:
+        alsvinn_object.set_initial_parameters(initial_parameters)
     if equation_parameters is not None:
         alsvinn_object.set_equation_parameters(equation_parameters)
 
-- 
2.43.0


From 3ada2440c778c88168b51ed2b3d32f20de3fa068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 84/84] fix: the Python front end finds every statistics by the
 name it is written with

---
 python/alsvinn/alsvinn.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 429106e..d3a776f 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -250,6 +250,22 @@ class Alsvinn(object):
                 break
         return dimension
 
+    def __statistics_names(self, statistics):
+        """The names the given statistics are written with"""
+        name = statistics['name']
+        if name == 'meanvar':
+            return ['mean', 'variance']
+        elif name == 'onepointmoment':
+            return ['m{}'.format(int(statistics['p']))]
+        elif name == 'bv_direction':
+            return ['bv_{}_{}'.format(axis, int(statistics['p'])) for axis in ['x', 'y', 'z']]
+        elif name in ['functional', 'functional_time_integrated']:
+            return ['mean_' + statistics['functionalName']]
+        elif 'p' in statistics:
+            return ['{}_{}'.format(name, int(statistics['p']))]
+        else:
+            return [name]
+
     def get_data(self, variable, timestep, sample=0, statistics=None):
         if statistics is None:
             basename = self.fvmSettings["writer"]["basename"]
@@ -264,22 +280,7 @@ class Alsvinn(object):
                         continue
                     s = self.uqSettings['stats'][s]
 
-                if statistics == 'mean' or statistics == 'variance':
-                    
-                    if s['name'] == 'meanvar':
-
-                        basename = s['writer']['basename']
-                        type = s['writer']['type']
-                        break
-                elif re.match(r'm(\d+)', statistics):
-                    match = re.match(r'm(\d+)', statistics)
-                    p_wanted = int(match.group(1))
-
-                    if 'p' in s and int(s['p']) == p_wanted:
-                        basename = s['writer']['basename']
-                        type = s['writer']['type']
-                        break
-                elif s['name'] == statistics:
+                if statistics in self.__statistics_names(s):
                     basename = s['writer']['basename']
                     type = s['writer']['type']
                     break
-- 
2.43.0

