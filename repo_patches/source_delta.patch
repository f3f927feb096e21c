From 02066f2f93d4e44a9d1f98898cef0e605090a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:54 +0000
Subject: [PATCH 01/25] Add guarded access for external runtime monitors

Only compiled with --cfg subsweep_verif.
---
 src/io/mod.rs                     |  2 ++
 src/io/verif_core.rs              |  5 +++++
 src/lib.rs                        |  5 +++++
 src/quadtree/mod.rs               |  2 ++
 src/quadtree/verif_core.rs        | 25 +++++++++++++++++++++++++
 src/sweep/direction/mod.rs        |  2 ++
 src/sweep/direction/verif_core.rs | 29 +++++++++++++++++++++++++++++
 src/sweep/mod.rs                  |  2 ++
 src/sweep/verif_core.rs           |  3 +++
 src/verif_core.rs                 | 12 ++++++++++++
 src/voronoi/mod.rs                |  2 ++
 src/voronoi/verif_core.rs         |  3 +++
 12 files changed, 92 insertions(+)
 create mode 100644 src/io/verif_core.rs
 create mode 100644 src/quadtree/verif_core.rs
 create mode 100644 src/sweep/direction/verif_core.rs
 create mode 100644 src/sweep/verif_core.rs
 create mode 100644 src/verif_core.rs
 create mode 100644 src/voronoi/verif_core.rs

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 32e35e1..f4e76b5 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -1,4 +1,6 @@
 mod file_distribution;
+#[cfg(subsweep_verif)]
+pub mod verif_core;
 pub mod input;
 pub mod output;
 pub mod time_series;
diff --git a/src/io/verif_core.rs b/src/io/verif_core.rs
new file mode 100644
index 0000000..7a0b064
--- /dev/null
+++ b/src/io/verif_core.rs
@@ -0,0 +1,5 @@
+//! See crate::verif_core.
+pub use super::file_distribution::get_rank_input_assignment_for_rank;
+pub use super::file_distribution::get_rank_output_assignment_for_rank;
+pub use super::file_distribution::RankAssignment;
+pub use super::file_distribution::Region;
diff --git a/src/lib.rs b/src/lib.rs
index c101dd2..87b154b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,3 +55,8 @@ mod named {
 pub(crate) mod test_examples;
 #[cfg(test)]
 pub(crate) mod test_utils;
+
+/// Access for external runtime monitors. Not part of the crate unless
+/// it is built with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+pub mod verif_core;
diff --git a/src/quadtree/mod.rs b/src/quadtree/mod.rs
index 6e8b287..693af3a 100644
--- a/src/quadtree/mod.rs
+++ b/src/quadtree/mod.rs
@@ -1,5 +1,7 @@
 pub mod config;
 mod node_index;
+#[cfg(subsweep_verif)]
+pub mod verif_core;
 pub mod radius_search;
 
 use bevy_ecs::prelude::Resource;
diff --git a/src/quadtree/verif_core.rs b/src/quadtree/verif_core.rs
new file mode 100644
index 0000000..0d182fd
--- /dev/null
+++ b/src/quadtree/verif_core.rs
@@ -0,0 +1,25 @@
+//! See crate::verif_core.
+use super::node_index::NodeIndex;
+use super::TWO_TO_NUM_DIMENSIONS;
+
+pub const NUM_CHILDREN: usize = TWO_TO_NUM_DIMENSIONS;
+
+/// The number that stands for the given child (None: the node itself).
+pub fn encode(child: Option<u8>) -> u8 {
+    match child {
+        None => NodeIndex::ThisNode.into(),
+        Some(num) => NodeIndex::Child(num).into(),
+    }
+}
+
+/// What the given number stands for.
+pub fn decode(num: u8) -> Option<u8> {
+    match NodeIndex::from(num) {
+        NodeIndex::ThisNode => None,
+        NodeIndex::Child(num) => Some(num),
+    }
+}
+
+pub fn display(num: u8) -> String {
+    NodeIndex::from(num).to_string()
+}
diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..ba4250f 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -1,5 +1,7 @@
 #[cfg(not(feature = "2d"))]
 mod healpix;
+#[cfg(subsweep_verif)]
+pub mod verif_core;
 
 use std::f64::consts::PI;
 
diff --git a/src/sweep/direction/verif_core.rs b/src/sweep/direction/verif_core.rs
new file mode 100644
index 0000000..9309718
--- /dev/null
+++ b/src/sweep/direction/verif_core.rs
@@ -0,0 +1,29 @@
+//! See crate::verif_core.
+use rand::rngs::StdRng;
+
+pub use super::DirectionsRng;
+use crate::units::helpers::MVec;
+
+pub fn rotation_matrix(axis: MVec, angle: f64) -> [[f64; 3]; 3] {
+    super::get_rotation_matrix(axis, angle)
+}
+
+pub fn random_rotation_matrix(rng: &mut StdRng) -> [[f64; 3]; 3] {
+    super::get_random_rotation_matrix(rng)
+}
+
+pub fn multiply_by_matrix(vec: &mut MVec, matrix: &[[f64; 3]; 3]) {
+    super::multiply_by_matrix(vec, matrix)
+}
+
+#[cfg(not(feature = "2d"))]
+pub fn direction_bins() -> Vec<(usize, Vec<[f64; 3]>)> {
+    use super::healpix::*;
+    vec![
+        (16, DIRECTION_BINS_16.to_vec()),
+        (21, DIRECTION_BINS_21.to_vec()),
+        (32, DIRECTION_BINS_32.to_vec()),
+        (64, DIRECTION_BINS_64.to_vec()),
+        (84, DIRECTION_BINS_84.to_vec()),
+    ]
+}
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index a66d17d..aa2f098 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -13,6 +13,8 @@ mod tests;
 mod time_series;
 pub mod timestep_level;
 mod timestep_state;
+#[cfg(subsweep_verif)]
+pub mod verif_core;
 
 use bevy_ecs::prelude::*;
 use derive_more::Into;
diff --git a/src/sweep/verif_core.rs b/src/sweep/verif_core.rs
new file mode 100644
index 0000000..2beed1c
--- /dev/null
+++ b/src/sweep/verif_core.rs
@@ -0,0 +1,3 @@
+//! See crate::verif_core.
+pub use super::count_by_dir::CountByDir;
+pub use super::direction::verif_core as direction;
diff --git a/src/verif_core.rs b/src/verif_core.rs
new file mode 100644
index 0000000..7268c54
--- /dev/null
+++ b/src/verif_core.rs
@@ -0,0 +1,12 @@
+//! Re-exports of crate-private items for runtime monitors that live outside of
+//! this repository. Only compiled with `--cfg subsweep_verif`.
+
+pub use crate::extent::get_extent_from_min_and_max_reduce;
+pub use crate::extent::Extent;
+pub use crate::peano_hilbert::PeanoKey2d;
+pub use crate::peano_hilbert::PeanoKey3d;
+pub use crate::peano_hilbert::NUM_BITS_PER_DIMENSION_2D;
+pub use crate::peano_hilbert::NUM_BITS_PER_DIMENSION_3D;
+pub use crate::quadtree::verif_core as quadtree;
+pub use crate::voronoi::DVector;
+pub use crate::voronoi::MinMax;
diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index 33a54e5..3c6071a 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -8,6 +8,8 @@ mod primitives;
 mod test_utils;
 pub mod triangulation_data;
 mod utils;
+#[cfg(subsweep_verif)]
+pub mod verif_core;
 pub mod visualizer;
 
 use bevy_ecs::prelude::Resource;
diff --git a/src/voronoi/verif_core.rs b/src/voronoi/verif_core.rs
new file mode 100644
index 0000000..b990145
--- /dev/null
+++ b/src/voronoi/verif_core.rs
@@ -0,0 +1,3 @@
+//! See crate::verif_core.
+pub use super::indexed_arena::IndexedArena;
+pub use super::indexed_arena::IndexedVec;
-- 
2.43.0


From a1580df8d0d7d593e9310ef61bf4727171e78add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:54 +0000
Subject: [PATCH 02/25] fix: do not corrupt the arena when reserving zero
 capacity

generational_arena::Arena::reserve(0) points the head of the free list at
the entry after the last one, so that the next insertion into a full arena
panics with an index out of bounds. This happens in the construction of a
triangulation without any points of its own.
---
 src/voronoi/indexed_arena.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/voronoi/indexed_arena.rs b/src/voronoi/indexed_arena.rs
index cc92174..96964f1 100644
--- a/src/voronoi/indexed_arena.rs
+++ b/src/voronoi/indexed_arena.rs
@@ -48,7 +48,11 @@ impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> {
     }
 
     pub fn reserve(&mut self, cap: usize) {
-        self.arena.reserve(cap)
+        // Reserving nothing makes the arena believe that there is a free
+        // entry behind its last one.
+        if cap > 0 {
+            self.arena.reserve(cap)
+        }
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From 08602408c12099c9e6056ba09e829f8c17ac72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:36 +0000
Subject: [PATCH 03/25] fix: give options the size of their Rust representation
 in MPI messages

MPI computes the extent of the struct from the alignment of the basic MPI types in it. A 3d peano key
is a u128, which is sent as two u64 but aligned to 16 bytes, so the extent of an optional key was 24
bytes instead of 32 and all but the first element of an array of them arrived as garbage.
---
 src/communication/communicated_option.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/communication/communicated_option.rs b/src/communication/communicated_option.rs
index f960a39..2d25496 100644
--- a/src/communication/communicated_option.rs
+++ b/src/communication/communicated_option.rs
@@ -1,7 +1,11 @@
+use std::mem::size_of;
 use std::mem::MaybeUninit;
 
 use mpi::datatype::UserDatatype;
+use mpi::ffi;
 use mpi::internal::memoffset::offset_of;
+use mpi::raw::AsRaw;
+use mpi::raw::FromRaw;
 use mpi::traits::Equivalence;
 use mpi::Address;
 
@@ -61,7 +65,7 @@ where
     type Out = UserDatatype;
 
     fn equivalent_datatype() -> Self::Out {
-        UserDatatype::structured(
+        let fields = UserDatatype::structured(
             &[1, 1],
             &[
                 offset_of!(CommunicatedOption<T>, valid) as Address,
@@ -71,7 +75,22 @@ where
                 UserDatatype::contiguous(1, &bool::equivalent_datatype()),
                 UserDatatype::contiguous(1, &T::equivalent_datatype()),
             ],
-        )
+        );
+        // MPI derives the extent of the type from the alignment of the MPI
+        // types it is made of, which can be smaller than the alignment of T.
+        // Without this, everything after the first element in an array of
+        // such options is read from and written to the wrong location.
+        let mut resized = MaybeUninit::uninit();
+        unsafe {
+            ffi::MPI_Type_create_resized(
+                fields.as_raw(),
+                0,
+                size_of::<Self>() as Address,
+                resized.as_mut_ptr(),
+            );
+            ffi::MPI_Type_commit(resized.as_mut_ptr());
+            UserDatatype::from_raw(resized.assume_init())
+        }
     }
 }
 
-- 
2.43.0


From 36da14fd28efd148eaafd47b00c9bbc96ad51ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:13 +0000
Subject: [PATCH 04/25] fix: gathering nothing from all ranks no longer aborts

The dangling pointer of an empty vector of single bytes is 1, which Open MPI takes for MPI_IN_PLACE and
refuses as a receive buffer.
---
 src/communication/mpi_world.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/communication/mpi_world.rs b/src/communication/mpi_world.rs
index 21907c7..219f6e4 100644
--- a/src/communication/mpi_world.rs
+++ b/src/communication/mpi_world.rs
@@ -235,8 +235,14 @@ where
 
     fn all_gather_varcount_with_counts(&mut self, send: &[S], counts: &[Count]) -> Vec<S> {
         self.verify_tag();
-        let mut result_buffer: Vec<S> =
-            unsafe { get_buffer(counts.iter().map(|x| *x as usize).sum()) };
+        let num_elements = counts.iter().map(|x| *x as usize).sum();
+        // The pointer of an empty vector of a type with an alignment of 1 is
+        // MPI_IN_PLACE in some implementations, which is not a valid receive
+        // buffer.
+        if num_elements == 0 {
+            return vec![];
+        }
+        let mut result_buffer: Vec<S> = unsafe { get_buffer(num_elements) };
         let displacements: Vec<Count> = counts
             .iter()
             .scan(0, |acc, &x| {
-- 
2.43.0


From 54857f8aca345c784fcfbb5e178907a4abda5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 05/25] Add guarded records of the sweep and access to grid and
 chemistry for external runtime monitors

---
 src/chemistry/hydrogen_only/mod.rs        |   3 +
 src/chemistry/hydrogen_only/verif_full.rs |  68 ++++++++++++
 src/lib.rs                                |   2 +
 src/sweep/mod.rs                          |  10 ++
 src/sweep/verif_full.rs                   | 127 ++++++++++++++++++++++
 src/verif_full.rs                         |  24 ++++
 src/voronoi/constructor/mod.rs            |   2 +
 src/voronoi/constructor/verif_full.rs     |   8 ++
 src/voronoi/mod.rs                        |   2 +
 src/voronoi/verif_full.rs                 |  13 +++
 10 files changed, 259 insertions(+)
 create mode 100644 src/chemistry/hydrogen_only/verif_full.rs
 create mode 100644 src/sweep/verif_full.rs
 create mode 100644 src/verif_full.rs
 create mode 100644 src/voronoi/constructor/verif_full.rs
 create mode 100644 src/voronoi/verif_full.rs

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..fe0148b 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -1,3 +1,6 @@
+#[cfg(subsweep_verif)]
+pub mod verif_full;
+
 use std::ops::Div;
 
 use diman::Quotient;
diff --git a/src/chemistry/hydrogen_only/verif_full.rs b/src/chemistry/hydrogen_only/verif_full.rs
new file mode 100644
index 0000000..80d4972
--- /dev/null
+++ b/src/chemistry/hydrogen_only/verif_full.rs
@@ -0,0 +1,68 @@
+//! See crate::verif_full.
+use super::Solver;
+use crate::chemistry::timescale::Process;
+use crate::units::Density;
+use crate::units::Dimensionless;
+use crate::units::Length;
+use crate::units::PhotonRate;
+use crate::units::Temperature;
+use crate::units::Time;
+use crate::units::Volume;
+
+/// The state of a cell, and what it does in a timestep.
+#[derive(Clone, Copy, Debug)]
+pub struct CellState {
+    pub ionized_hydrogen_fraction: Dimensionless,
+    pub temperature: Temperature,
+    pub density: Density,
+    pub volume: Volume,
+    pub length: Length,
+    pub rate: PhotonRate,
+    pub scale_factor: Dimensionless,
+    pub floor: Option<(Temperature, Dimensionless)>,
+}
+
+impl CellState {
+    fn solver(&self) -> Solver {
+        Solver {
+            ionized_hydrogen_fraction: self.ionized_hydrogen_fraction,
+            temperature: self.temperature,
+            density: self.density,
+            volume: self.volume,
+            length: self.length,
+            rate: self.rate,
+            scale_factor: self.scale_factor,
+            floor: self.floor,
+        }
+    }
+
+    /// Temperature and ionized fraction after the timestep, the timescale of change and
+    /// whether the photon rate is what limits it.
+    pub fn perform_timestep(
+        &self,
+        timestep: Time,
+        safety_factor: Dimensionless,
+    ) -> (Temperature, Dimensionless, Time, bool) {
+        let mut solver = self.solver();
+        let timescale = solver.perform_timestep(timestep, safety_factor);
+        (
+            solver.temperature,
+            solver.ionized_hydrogen_fraction,
+            timescale.time,
+            timescale.process == Process::PhotonRate,
+        )
+    }
+
+    /// In SI units: photoionization rate, photoheating rate, recombination rate,
+    /// collisional ionization rate, cooling rate.
+    pub fn rates(&self, timestep: Time) -> [f64; 5] {
+        let solver = self.solver();
+        [
+            solver.photoionization_rate(timestep).value_unchecked(),
+            solver.photoheating_rate(timestep).value_unchecked(),
+            solver.case_b_recombination_rate().value_unchecked(),
+            solver.collisional_ionization_rate().value_unchecked(),
+            solver.cooling_rate().value_unchecked(),
+        ]
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 87b154b..2a24a54 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,3 +60,5 @@ pub(crate) mod test_utils;
 /// it is built with `--cfg subsweep_verif`.
 #[cfg(subsweep_verif)]
 pub mod verif_core;
+#[cfg(subsweep_verif)]
+pub mod verif_full;
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index aa2f098..1386f6d 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -15,6 +15,8 @@ pub mod timestep_level;
 mod timestep_state;
 #[cfg(subsweep_verif)]
 pub mod verif_core;
+#[cfg(subsweep_verif)]
+pub mod verif_full;
 
 use bevy_ecs::prelude::*;
 use derive_more::Into;
@@ -278,13 +280,19 @@ impl<C: Chemistry> Sweep<C> {
         trace!("Level {:>2}: Sweeping.", self.current_level.0);
         self.init_counts();
         self.to_solve = self.get_initial_tasks();
+        #[cfg(subsweep_verif)]
+        verif_full::started(self);
         if self.check_deadlock {
             self.check_deadlock();
         }
         self.solve();
+        #[cfg(subsweep_verif)]
+        verif_full::finished(self);
         timers.stop(self.current_level);
         trace!("Level {:>2}: Updating chemistry.", self.current_level.0);
         self.update_chemistry(timers);
+        #[cfg(subsweep_verif)]
+        verif_full::updated(self);
         for site in self.sites.iter() {
             debug_assert_eq!(site.num_missing_upwind.total(), 0);
         }
@@ -423,6 +431,8 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn solve_task(&mut self, task: Task) {
+        #[cfg(subsweep_verif)]
+        verif_full::solved(&task);
         let outgoing_rate = self.get_outgoing_rate(&task);
         let site = self.sites.get_mut(task.id);
         let outgoing_rate_correction =
diff --git a/src/sweep/verif_full.rs b/src/sweep/verif_full.rs
new file mode 100644
index 0000000..8254e81
--- /dev/null
+++ b/src/sweep/verif_full.rs
@@ -0,0 +1,127 @@
+//! See crate::verif_full: a record of what the sweeps do.
+use std::any::Any;
+use std::cell::RefCell;
+
+pub use super::active_list::ActiveList;
+use super::Sweep;
+use super::Task;
+pub use super::timestep_state::TimestepState;
+use crate::chemistry::hydrogen_only::HydrogenOnly;
+use crate::chemistry::Chemistry;
+use crate::particle::ParticleId;
+use crate::prelude::Simulation;
+
+/// In SI units.
+#[derive(Clone, Debug)]
+pub struct SiteState {
+    pub id: ParticleId,
+    pub level: usize,
+    pub incoming: Vec<f64>,
+    pub outgoing: Vec<f64>,
+    pub periodic: Vec<f64>,
+    pub previous: f64,
+    pub source: f64,
+    pub ionized_hydrogen_fraction: f64,
+    pub temperature: f64,
+    pub density: f64,
+    pub change_timescale: f64,
+}
+
+#[derive(Clone, Debug)]
+pub struct SweepState {
+    pub level: usize,
+    pub directions: Vec<[f64; 3]>,
+    pub sites: Vec<SiteState>,
+    pub halo_levels: Vec<(ParticleId, usize)>,
+}
+
+#[derive(Clone, Debug)]
+pub enum Record {
+    /// A sweep over the active cells is about to begin.
+    Started(SweepState),
+    /// A cell was solved in one direction.
+    Solved(ParticleId, usize),
+    /// All cells were solved.
+    Finished(SweepState),
+    /// The abundances were updated.
+    Updated(SweepState),
+}
+
+thread_local! {
+    static RECORDS: RefCell<Option<Vec<Record>>> = RefCell::new(None);
+}
+
+/// Begin to record (or begin anew) and return what was recorded so far.
+pub fn record() -> Vec<Record> {
+    RECORDS.with(|r| r.borrow_mut().replace(vec![]).unwrap_or_default())
+}
+
+fn push(f: impl FnOnce() -> Option<Record>) {
+    RECORDS.with(|r| {
+        if let Some(records) = r.borrow_mut().as_mut() {
+            records.extend(f());
+        }
+    })
+}
+
+pub(super) fn started<C: Chemistry>(sweep: &Sweep<C>) {
+    push(|| state(sweep).map(Record::Started))
+}
+
+pub(super) fn solved(task: &Task) {
+    push(|| Some(Record::Solved(task.id, task.dir.0)))
+}
+
+pub(super) fn finished<C: Chemistry>(sweep: &Sweep<C>) {
+    push(|| state(sweep).map(Record::Finished))
+}
+
+pub(super) fn updated<C: Chemistry>(sweep: &Sweep<C>) {
+    push(|| state(sweep).map(Record::Updated))
+}
+
+fn state<C: Chemistry>(sweep: &Sweep<C>) -> Option<SweepState> {
+    let sweep = (sweep as &dyn Any).downcast_ref::<Sweep<HydrogenOnly>>()?;
+    Some(SweepState {
+        level: sweep.current_level.0,
+        directions: sweep
+            .directions
+            .enumerate()
+            .map(|(_, d)| d.value_unchecked().to_array())
+            .collect(),
+        sites: sweep
+            .sites
+            .enumerate_with_levels()
+            .map(|(id, level, site)| {
+                let values = |v: &[crate::units::PhotonRate]| {
+                    v.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>()
+                };
+                SiteState {
+                    id,
+                    level: level.0,
+                    incoming: values(&site.incoming_total_rate),
+                    outgoing: values(&site.outgoing_total_rate),
+                    periodic: values(&site.periodic_source),
+                    previous: site.previous_incoming_total_rate.value_unchecked(),
+                    source: site.source_per_direction_bin(1).value_unchecked(),
+                    ionized_hydrogen_fraction: *site.species.ionized_hydrogen_fraction,
+                    temperature: site.species.temperature.value_unchecked(),
+                    density: site.density.value_unchecked(),
+                    change_timescale: site.change_timescale.value_unchecked(),
+                }
+            })
+            .collect(),
+        halo_levels: sweep
+            .halo_levels
+            .iter()
+            .map(|(id, level)| (*id, level.0))
+            .collect(),
+    })
+}
+
+/// What the solver of the simulation holds, if there is one.
+pub fn current_state(sim: &Simulation) -> Option<SweepState> {
+    sim.get_non_send_resource::<Option<Sweep<HydrogenOnly>>>()
+        .and_then(|s| s.as_ref())
+        .and_then(state)
+}
diff --git a/src/verif_full.rs b/src/verif_full.rs
new file mode 100644
index 0000000..808d1e1
--- /dev/null
+++ b/src/verif_full.rs
@@ -0,0 +1,24 @@
+//! Access to parts of the simulation for runtime monitors that live outside of
+//! this repository. Only compiled with `--cfg subsweep_verif`.
+
+pub use crate::chemistry::hydrogen_only::verif_full as hydrogen_only;
+pub use crate::chemistry::hydrogen_only::HydrogenOnly;
+pub use crate::chemistry::Chemistry;
+pub use crate::chemistry::Photons;
+pub use crate::quadtree::Node;
+pub use crate::quadtree::QuadTreeConfig;
+use crate::simulation_box::SimulationBox;
+pub use crate::simulation_box::WrapType;
+use crate::units::VecLength;
+
+/// The periodic images of a point, with the translation in units of the side length.
+pub fn periodic_images(box_: &SimulationBox, point: VecLength) -> Vec<([i32; 3], VecLength)> {
+    let sign = |w: WrapType| match w {
+        WrapType::NoWrap => 0,
+        WrapType::Minus => -1,
+        WrapType::Plus => 1,
+    };
+    box_.iter_periodic_images(point)
+        .map(|(w, p)| ([sign(w.x), sign(w.y), sign(w.z)], p))
+        .collect()
+}
diff --git a/src/voronoi/constructor/mod.rs b/src/voronoi/constructor/mod.rs
index c067307..d90799c 100644
--- a/src/voronoi/constructor/mod.rs
+++ b/src/voronoi/constructor/mod.rs
@@ -2,6 +2,8 @@ mod halo_cache;
 mod halo_iteration;
 mod local;
 pub(super) mod parallel;
+#[cfg(subsweep_verif)]
+pub mod verif_full;
 
 use log::debug;
 use log::info;
diff --git a/src/voronoi/constructor/verif_full.rs b/src/voronoi/constructor/verif_full.rs
new file mode 100644
index 0000000..c461756
--- /dev/null
+++ b/src/voronoi/constructor/verif_full.rs
@@ -0,0 +1,8 @@
+//! See crate::verif_full.
+use super::Constructor;
+use crate::voronoi::DDimension;
+use crate::voronoi::TriangulationData;
+
+pub fn data<D: DDimension>(c: &Constructor<D>) -> &TriangulationData<D> {
+    &c.data
+}
diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index 3c6071a..338d0ca 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -10,6 +10,8 @@ pub mod triangulation_data;
 mod utils;
 #[cfg(subsweep_verif)]
 pub mod verif_core;
+#[cfg(subsweep_verif)]
+pub mod verif_full;
 pub mod visualizer;
 
 use bevy_ecs::prelude::Resource;
diff --git a/src/voronoi/verif_full.rs b/src/voronoi/verif_full.rs
new file mode 100644
index 0000000..70f17fb
--- /dev/null
+++ b/src/voronoi/verif_full.rs
@@ -0,0 +1,13 @@
+//! See crate::verif_full.
+use super::delaunay::dimension::DDimension;
+use super::delaunay::PointIndex;
+use super::delaunay::PointKind;
+use super::Triangulation;
+
+pub use super::constructor::verif_full::data;
+pub use super::delaunay::dimension::DFace;
+pub use super::delaunay::dimension::DTetra;
+
+pub fn point_kind<D: DDimension>(t: &Triangulation<D>, p: PointIndex) -> PointKind {
+    t.point_kinds[&p]
+}
-- 
2.43.0


From 9f32bb8aea5f7ab7a254497b608c27b29dab93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 06/25] fix: keep circumcircles circles when remapping points
 of boxes that are not cubes

---
 src/dimension.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..d52d18b 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -19,6 +19,8 @@ pub trait Dimension {
     type Point: Clone + Copy + DVector<Float = Float> + IntoKey + Debug + Visualizable;
     type UnitPoint: Clone + Copy + IntoKey + Debug;
     type WrapType: Default + Clone + Debug + PartialEq + Eq + std::hash::Hash + Copy;
+    /// Map the point into [1, 2]. All axes are scaled by the same factor, since
+    /// the circumcircles of the points need to remain circles.
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self>;
 }
 
@@ -43,7 +45,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
@@ -55,7 +57,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
-- 
2.43.0


From 595874f5105c39c9d9822f4f7caaa1f871327c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:12 +0000
Subject: [PATCH 07/25] fix: keep the ionized fraction within its bounds when
 cooling is prevented

With a floor above 1 - epsilon the clamp panicked, with a floor below epsilon
the fraction left its bounds, and a cell that was initially fully neutral could never be ionized.
---
 src/chemistry/hydrogen_only/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index fe0148b..0ab5580 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -357,13 +357,14 @@ impl Solver {
     }
 
     fn clamp(&mut self) {
+        let xhii_min = IONIZED_HYDROGEN_FRACTION_EPSILON;
+        let xhii_max = 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON;
         let xhii_floor = self
             .floor
-            .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
-        self.ionized_hydrogen_fraction = self
-            .ionized_hydrogen_fraction
-            .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .map(|(_, xhii)| (*xhii).clamp(xhii_min, xhii_max))
+            .unwrap_or(xhii_min);
+        self.ionized_hydrogen_fraction =
+            self.ionized_hydrogen_fraction.clamp(xhii_floor, xhii_max);
         if let Some((temp_floor, _)) = self.floor {
             if self.temperature < temp_floor {
                 self.temperature = temp_floor;
-- 
2.43.0


From 23715d25f36d16edf8c46639ec98cf0a86fdff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:49 +0000
Subject: [PATCH 08/25] fix: do not lose rate corrections for inactive cells on
 other ranks

Corrections towards inactive neighbours were applied on the same rank but
dropped when the neighbour is on another rank, so that with several timestep
levels the rates depended on the number of ranks and photons were lost.
---
 src/sweep/mod.rs | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 1386f6d..42ad5a5 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -393,6 +393,27 @@ impl<C: Chemistry> Sweep<C> {
             }
             self.sites.get_mut(id).num_missing_upwind = num_missing_upwind;
         }
+        // Inactive cells are not solved, but they still receive the
+        // rate corrections of their active neighbours on other ranks.
+        for (_, level, cell) in self.cells.enumerate_with_levels() {
+            if level.is_active(self.current_level) {
+                continue;
+            }
+            for (face, neighbour) in cell.neighbours.iter() {
+                let (neighbour_id, neighbour_rank) = match neighbour {
+                    ParticleType::Remote(neighbour) => (neighbour.id, neighbour.rank),
+                    ParticleType::RemotePeriodic(neighbour) => (neighbour.id, neighbour.rank),
+                    _ => continue,
+                };
+                if self.is_active(neighbour_id) {
+                    self.to_receive_count[neighbour_rank] += self
+                        .directions
+                        .enumerate()
+                        .filter(|(_, dir)| face.points_upwind(dir))
+                        .count();
+                }
+            }
+        }
     }
 
     fn get_initial_tasks(&self) -> PriorityQueue<Task> {
@@ -530,15 +551,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         remote: &RemoteNeighbour,
     ) {
-        if self.is_active(remote.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: remote.id,
-                periodic: false,
-            };
-            self.to_send[remote.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: remote.id,
+            periodic: false,
+        };
+        self.to_send[remote.rank].push(rate_data);
     }
 
     fn handle_remote_periodic_neighbour(
@@ -547,15 +566,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         neighbour: &RemotePeriodicNeighbour,
     ) {
-        if self.is_active(neighbour.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: neighbour.id,
-                periodic: true,
-            };
-            self.to_send[neighbour.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: neighbour.id,
+            periodic: true,
+        };
+        self.to_send[neighbour.rank].push(rate_data);
     }
 
     fn update_chemistry(&mut self, timers: &mut Performance) {
-- 
2.43.0


From 6f5055c80adb5305626a18d9e3c3b310b3c65426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:40 +0000
Subject: [PATCH 09/25] fix: check for deadlocks on ranks without active cells
 too

The check returned early on ranks without active cells and left the other
ranks waiting in a collective operation.
---
 src/sweep/deadlock_detection.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..afbdbf1 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,10 +84,6 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
-        let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
-- 
2.43.0


From 4f09bd3ddd6ad7b46237e4455202a62c5b1b3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:54 +0000
Subject: [PATCH 10/25] fix: wait for all outstanding requests when a sweep
 communicator is dropped

---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From b1136c4d721107888736e8f2c70d98d5e234bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 11/25] fix: resolve all bits of a key when cutting the domains

---
 src/domain/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..6df80b8 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -26,7 +26,7 @@ pub trait Key: PartialOrd + Ord + Copy + Clone + Debug + Equivalence {
 
 impl Key for PeanoKey2d {
     type Dimension = TwoD;
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
+    const MAX_DEPTH: usize = 2 * NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
@@ -40,7 +40,7 @@ impl Key for PeanoKey2d {
 impl Key for PeanoKey3d {
     type Dimension = ThreeD;
 
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
+    const MAX_DEPTH: usize = 3 * NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
-- 
2.43.0


From bc91a1a23eed32705cc8785402eb2a47f1b7a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 12/25] fix: accept 'all' as the fields to be written

---
 src/io/output/parameters.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/io/output/parameters.rs b/src/io/output/parameters.rs
index c61e2b1..bdc0c95 100644
--- a/src/io/output/parameters.rs
+++ b/src/io/output/parameters.rs
@@ -1,6 +1,10 @@
 use std::path::PathBuf;
 
 use derive_custom::subsweep_parameters;
+use serde::de::Error;
+use serde::Deserialize;
+use serde::Deserializer;
+use serde::Serializer;
 
 use super::plugin::IntoOutputSystem;
 use crate::named::Named;
@@ -26,6 +30,7 @@ pub enum HandleExistingOutput {
 #[subsweep_parameters]
 #[serde(untagged)]
 pub enum Fields {
+    #[serde(deserialize_with = "deserialize_all", serialize_with = "serialize_all")]
     All,
     Some(Vec<String>),
 }
@@ -80,6 +85,21 @@ pub struct OutputParameters {
     pub num_output_files: usize,
 }
 
+const ALL_FIELDS: &str = "all";
+
+fn serialize_all<S: Serializer>(serializer: S) -> Result<S::Ok, S::Error> {
+    serializer.serialize_str(ALL_FIELDS)
+}
+
+fn deserialize_all<'de, D: Deserializer<'de>>(deserializer: D) -> Result<(), D::Error> {
+    match Option::<String>::deserialize(deserializer)?.as_deref() {
+        None | Some(ALL_FIELDS) => Ok(()),
+        Some(other) => Err(D::Error::custom(format!(
+            "Expected '{ALL_FIELDS}' or a list of fields, found '{other}'"
+        ))),
+    }
+}
+
 fn default_snapshot_padding() -> usize {
     3
 }
-- 
2.43.0


From f563c772014900da36beab461ca55de84c10f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 13/25] fix: read the files of a directory in the order of
 their names

---
 src/io/input/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index 3a49dca..67a738a 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -73,7 +73,7 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
     if path.is_file() {
         vec![path.to_owned()]
     } else {
-        fs::read_dir(path)
+        let mut files: Vec<_> = fs::read_dir(path)
             .unwrap_or_else(|e| {
                 panic!("Error: {e} while trying to read remap path {path:?} as directory")
             })
@@ -87,7 +87,12 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
                     None
                 }
             })
-            .collect()
+            .collect();
+        // The order of the entries of a directory is arbitrary, but the
+        // order of the files needs to be the same on all ranks and for
+        // all snapshots.
+        files.sort();
+        files
     }
 }
 
-- 
2.43.0


From 3b59532a55333dcb1c37bae1b7d620c2c10d9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 14/25] fix: there is no data for ranks beyond those that
 something was stored for

---
 src/communication/data_by_rank.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/communication/data_by_rank.rs b/src/communication/data_by_rank.rs
index bc3b893..daa1101 100644
--- a/src/communication/data_by_rank.rs
+++ b/src/communication/data_by_rank.rs
@@ -111,15 +111,15 @@ impl<T> IndexMut<Rank> for DataByRank<T> {
 
 impl<T> DataByRank<T> {
     pub fn get(&self, rank: &Rank) -> Option<&T> {
-        self.0[*rank as usize].as_ref()
+        self.0.get(*rank as usize)?.as_ref()
     }
 
     pub fn get_mut(&mut self, rank: &Rank) -> Option<&mut T> {
-        self.0[*rank as usize].as_mut()
+        self.0.get_mut(*rank as usize)?.as_mut()
     }
 
     pub fn remove(&mut self, rank: &Rank) -> Option<T> {
-        self.0[*rank as usize].take()
+        self.0.get_mut(*rank as usize)?.take()
     }
 
     pub fn insert(&mut self, rank: Rank, data: T) {
-- 
2.43.0


From a6aa88571207c94a2ec06f7b38b038ce32548cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 15/25] fix: remap from data that not all ranks have a part of

---
 src/arepo_postprocess/remap.rs | 36 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index d116d48..0efae5a 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -196,7 +196,7 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
     fn exchange_request_chunk(&mut self, chunk: &[Identified<SearchRequest>]) {
         let mut closest_map: HashMap<_, _> = chunk
             .iter()
-            .map(|request| (request.entity(), self.get_reply(&request.data)))
+            .filter_map(|request| Some((request.entity(), self.get_reply(&request.data)?)))
             .collect();
         let outgoing = self.get_outgoing_requests(&closest_map, chunk);
         let incoming = self.comm1.exchange_all(outgoing);
@@ -204,16 +204,20 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
             DataByRank::from_communicator(&self.comm2);
         for (rank, requests) in incoming {
             for request in requests {
-                let reply = Identified::new(request.entity(), self.get_reply(&request.data));
-                outgoing[rank].push(reply);
+                if let Some(reply) = self.get_reply(&request.data) {
+                    outgoing[rank].push(Identified::new(request.entity(), reply));
+                }
             }
         }
         let incoming = self.comm2.exchange_all(outgoing);
         for (_, replies) in incoming {
             for reply in replies {
                 let entity = reply.entity();
-                let previously_closest = &closest_map[&entity];
-                if previously_closest.squared_distance > reply.data.squared_distance {
+                let is_closer = match closest_map.get(&entity) {
+                    Some(closest) => closest.squared_distance > reply.data.squared_distance,
+                    None => true,
+                };
+                if is_closer {
                     closest_map.insert(entity, reply.data);
                 }
             }
@@ -235,10 +239,16 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
         let mut outgoing: DataByRank<Vec<Identified<SearchRequest>>> =
             DataByRank::from_communicator(&self.comm1);
         for rank in self.comm1.other_ranks() {
-            let extent = &self.extents[rank];
+            // A rank without any remap data does not have an extent
+            let extent = match self.extents.get(&rank) {
+                Some(extent) => extent,
+                None => continue,
+            };
             for request in chunk.iter() {
-                let local_squared_distance =
-                    local_map.get(&request.entity()).unwrap().squared_distance;
+                let local_squared_distance = local_map
+                    .get(&request.entity())
+                    .map(|reply| reply.squared_distance)
+                    .unwrap_or(f64::INFINITY);
                 if self.closer_particle_could_exist_on_other_rank(
                     extent,
                     &request.data,
@@ -263,13 +273,17 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
         squared_distance_extent < squared_distance
     }
 
-    fn get_reply(&self, request: &SearchRequest) -> SearchReply {
+    /// The closest particle on this rank, if there is any.
+    fn get_reply(&self, request: &SearchRequest) -> Option<SearchReply> {
+        if self.data.is_empty() {
+            return None;
+        }
         let tree_coord = pos_to_tree_coord(&request.pos);
         let (squared_distance, index) = self.tree.nearest_one(&tree_coord, &squared_euclidean);
-        SearchReply {
+        Some(SearchReply {
             squared_distance,
             data: self.data[index].clone().into(),
-        }
+        })
     }
 }
 
-- 
2.43.0


From d3f04230258cff6c4690697b7656b13178e73afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 16/25] fix: the last rank owns the part of the box behind its
 last particle

---
 src/domain/decomposition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..455bc9f 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -91,10 +91,14 @@ impl<K: Key> Decomposition<K> {
     }
 
     pub fn get_owning_rank(&self, key: K) -> Rank {
-        self.cuts
+        let rank = self
+            .cuts
             .binary_search(&key)
             .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+            .unwrap_or_else(|e| e);
+        // The last domain ends at the last particle, but the rank
+        // also owns everything that comes after it.
+        rank.min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From 28d9280d811c6a95644982fe87d88cd56613de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 17/25] fix: write the scale factor of the time of the snapshot

---
 src/simulation_plugin/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation_plugin/mod.rs b/src/simulation_plugin/mod.rs
index 2457343..cee80d9 100644
--- a/src/simulation_plugin/mod.rs
+++ b/src/simulation_plugin/mod.rs
@@ -93,9 +93,10 @@ impl SubsweepPlugin for SimulationPlugin {
                 StartupStages::InsertDerivedComponents,
                 set_initial_cosmology_attributes_system,
             )
+            // The time changes during the sweep
             .add_system_to_stage(
-                Stages::Initial,
-                set_cosmological_time_variables_system.before(show_time_system),
+                Stages::AfterSweep,
+                set_cosmological_time_variables_system,
             )
             .add_plugin(OutputPlugin::<Attribute<ScaleFactor>>::default())
             .add_plugin(OutputPlugin::<Attribute<Redshift>>::default())
-- 
2.43.0


From fcdf05832aff17c603dc810c27723e5a20dcbe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 18/25] fix: simulate beyond a scale factor of one

---
 src/cosmology.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 56979b0..5f4de8a 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -114,13 +114,17 @@ impl CosmologyParams {
         h: Dimensionless,
         delta_t: Time,
     ) -> Dimensionless {
+        let f = |a1: f64| {
+            (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t).value_unchecked()
+        };
         let min = 0.0;
-        let max = 1.0;
+        // The scale factor can grow beyond that of today
+        let mut max = 1.0;
+        while f(max) < 0.0 {
+            max *= 2.0;
+        }
         binary_search(
-            |a1| {
-                (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t)
-                    .value_unchecked()
-            },
+            f,
             min,
             max,
             Time::years(100.0).value_unchecked(),
-- 
2.43.0


From 8800cd1d8f8369c8a79cc04570224341b375d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:17 +0000
Subject: [PATCH 19/25] Access to parameter files, command line options and
 timers for external runtime monitors

---
 src/verif_full.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/verif_full.rs b/src/verif_full.rs
index 808d1e1..c1b714a 100644
--- a/src/verif_full.rs
+++ b/src/verif_full.rs
@@ -5,6 +5,9 @@ pub use crate::chemistry::hydrogen_only::verif_full as hydrogen_only;
 pub use crate::chemistry::hydrogen_only::HydrogenOnly;
 pub use crate::chemistry::Chemistry;
 pub use crate::chemistry::Photons;
+pub use crate::command_line_options::CommandLineOptions;
+pub use crate::parameter_plugin::ParameterFileContents;
+pub use crate::performance::Performance;
 pub use crate::quadtree::Node;
 pub use crate::quadtree::QuadTreeConfig;
 use crate::simulation_box::SimulationBox;
-- 
2.43.0


From 1c4312182ac6858e39e799a9425b8268df8de2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:17 +0000
Subject: [PATCH 20/25] fix: do not ignore the overrides of a section that is
 not in the parameter file

---
 src/parameter_plugin/parameter_file_contents.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index d5ec2e0..8b75454 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -43,8 +43,15 @@ fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
         insert_overrides(&mut value, overrides);
         value
     };
-    let values_to_try = [get_value(), Value::Null];
-    let results = values_to_try.map(|value| serde_yaml::from_value::<T>(value));
+    let mut values_to_try = vec![get_value()];
+    // A section without any contents. Overrides are never ignored.
+    if overrides.is_empty() {
+        values_to_try.push(Value::Null);
+    }
+    let results: Vec<_> = values_to_try
+        .into_iter()
+        .map(|value| serde_yaml::from_value::<T>(value))
+        .collect();
     let errors = results
         .iter()
         .filter_map(|r| match r {
-- 
2.43.0


From 3d72499382a5c6d9156e1533b5c084f82d0e031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:17 +0000
Subject: [PATCH 21/25] fix: refuse overrides of sections that nothing asks for

---
 src/parameter_plugin/parameter_file_contents.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 8b75454..2abd5b6 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -145,7 +145,8 @@ impl ParameterFileContents {
     }
 
     pub fn get_section_names(&self) -> impl Iterator<Item = &String> {
-        self.sections.keys()
+        let overridden = self.overrides.iter().map(|o| &o.section);
+        self.sections.keys().chain(overridden)
     }
 
     fn get_overrides_for_section(
-- 
2.43.0


From 041578390cfde0a7fd5d3c874bd6d5d889daea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:17 +0000
Subject: [PATCH 22/25] fix: refuse a parameter file that cannot be parsed

---
 src/parameter_plugin/parameter_file_contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 2abd5b6..60d3b64 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -133,7 +133,7 @@ impl ParameterFileContents {
                     .map(|(k, v)| (k.as_str().unwrap().to_owned(), v.clone()))
                     .collect()
             })
-            .unwrap_or_default();
+            .unwrap_or_else(|err| panic!("Failed to parse parameter file: {err}"));
         Self {
             sections,
             overrides: vec![],
-- 
2.43.0


From cd1653180aea3a3d358ce8f5ffab5d27052efd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:09 +0000
Subject: [PATCH 23/25] Chunks of a few particles for the runtime monitors (cfg
 subsweep_verif)

---
 src/arepo_postprocess/read_grid/id_cache.rs | 5 ++++-
 src/arepo_postprocess/remap.rs              | 5 ++++-
 src/io/input/mod.rs                         | 2 ++
 src/verif_full.rs                           | 8 ++++++++
 src/voronoi/constructor/halo_iteration.rs   | 2 ++
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/arepo_postprocess/read_grid/id_cache.rs b/src/arepo_postprocess/read_grid/id_cache.rs
index cd4faf3..d30dacd 100644
--- a/src/arepo_postprocess/read_grid/id_cache.rs
+++ b/src/arepo_postprocess/read_grid/id_cache.rs
@@ -50,7 +50,10 @@ impl IdCache {
 
     pub fn perform_lookup(&mut self) {
         let requests: Vec<_> = self.requests.drain().collect();
-        for chunk in divide_into_chunks_with_same_num_globally(&requests, CHUNK_SIZE) {
+        let chunk_size = CHUNK_SIZE;
+        #[cfg(subsweep_verif)]
+        let chunk_size = subsweep::verif_full::at_most(chunk_size);
+        for chunk in divide_into_chunks_with_same_num_globally(&requests, chunk_size) {
             self.exchange_request_chunk(chunk);
         }
     }
diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index 0efae5a..b8429ad 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -187,7 +187,10 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
             .iter()
             .map(|(entity, pos, _, _)| Identified::new(entity, SearchRequest { pos: pos.clone() }))
             .collect();
-        for chunk in divide_into_chunks_with_same_num_globally(&requests, CHUNK_SIZE) {
+        let chunk_size = CHUNK_SIZE;
+        #[cfg(subsweep_verif)]
+        let chunk_size = subsweep::verif_full::at_most(chunk_size);
+        for chunk in divide_into_chunks_with_same_num_globally(&requests, chunk_size) {
             self.exchange_request_chunk(chunk);
         }
         debug!("Finished remapping.");
diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index 67a738a..ff4f0e4 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -278,6 +278,8 @@ impl Reader {
         let factor_read = T::dimension().base_conversion_factor();
         let (set, factor_written) =
             get_dataset_and_conversion_factor_for_file(&descriptor, &self.files[region.file_index]);
+        #[cfg(subsweep_verif)]
+        let chunk_size = crate::verif_full::at_most(chunk_size);
         let chunks = ChunkIter::new(set, &descriptor, chunk_size, region);
         chunks.into_iter().flat_map(move |chunk| {
             convert_dataset_units(chunk, factor_read, factor_written).into_iter()
diff --git a/src/verif_full.rs b/src/verif_full.rs
index c1b714a..b0f3d3a 100644
--- a/src/verif_full.rs
+++ b/src/verif_full.rs
@@ -25,3 +25,11 @@ pub fn periodic_images(box_: &SimulationBox, point: VecLength) -> Vec<([i32; 3],
         .map(|(w, p)| ([sign(w.x), sign(w.y), sign(w.z)], p))
         .collect()
 }
+
+/// Chunks no larger than what the environment asks for, so that a few particles are many chunks.
+pub fn at_most(chunk_size: usize) -> usize {
+    std::env::var("VERIF_CHUNK")
+        .ok()
+        .and_then(|limit| limit.parse().ok())
+        .map_or(chunk_size, |limit: usize| limit.min(chunk_size))
+}
diff --git a/src/voronoi/constructor/halo_iteration.rs b/src/voronoi/constructor/halo_iteration.rs
index 65aea7e..21d2b7f 100644
--- a/src/voronoi/constructor/halo_iteration.rs
+++ b/src/voronoi/constructor/halo_iteration.rs
@@ -206,6 +206,8 @@ where
 
     fn get_radius_search_data(&mut self) -> Vec<SearchData<D>> {
         let chunk_size = SEARCH_CHUNK_SIZE.min(self.undecided_tetras.len());
+        #[cfg(subsweep_verif)]
+        let chunk_size = crate::verif_full::at_most(chunk_size);
         let (search_data, new_undecided): (Vec<_>, Vec<_>) = self
             .undecided_tetras
             .drain(..chunk_size)
-- 
2.43.0


From 57543879226e6a45ec1a23aa3a7964c9e77e0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:09 +0000
Subject: [PATCH 24/25] fix: Cartesian grids whose side is a multiple of the
 cell size up to rounding lost a layer of cells

---
 src/sweep/grid/cartesian.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..397bda6 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -140,19 +140,21 @@ impl IntegerPosition {
 
     fn from_position_and_side_length(pos: VecLength, side_length: Length) -> IntegerPosition {
         let float = (pos / side_length).value();
+        // Multiples of the side length count as such in spite of rounding
+        let floor = |x: Float| (x * (1.0 + 1e-10)).floor() as i32;
         #[cfg(feature = "2d")]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
+                x: floor(float.x),
+                y: floor(float.y),
             }
         }
         #[cfg(not(feature = "2d"))]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
-                z: float.z.floor() as i32,
+                x: floor(float.x),
+                y: floor(float.y),
+                z: floor(float.z),
             }
         }
     }
-- 
2.43.0


From 49802224e4bb73b1dcd3258e78f1f54dc93418a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:58 +0000
Subject: [PATCH 25/25] fix: Rydberg energy of 13.605693 eV, a digit was
 missing

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 6d86b6c..980838e 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -105,7 +105,7 @@ unit_system!(
         constant NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION = 2.9580524545305314e-18 * centimeters_squared,
         constant ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION = 2.7352520425024469e-18 * centimeters_squared,
         constant PHOTON_AVERAGE_ENERGY = 18.028356312818811 * electron_volts,
-        constant RYDBERG_CONSTANT = 13.65693 * electron_volts,
+        constant RYDBERG_CONSTANT = 13.605693 * electron_volts,
     ]
 );
 
-- 
2.43.0

