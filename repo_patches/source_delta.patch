From 7897e3a0b7ff060504ed8cbfb8f91e807fa74deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 01/49] fix: do not modify the input dictionary in
 PopulationSynth.from_dict

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..b4f7031 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -549,6 +549,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             for obj_name, v in input["auxiliary samplers"].items():
 
+                # do not alter the dictionary of the user
+
+                v = dict(v)
+
                 # first we extract the required info
 
                 sampler_name = v.pop("type")
-- 
2.43.0


From 82454a1519a552ee2a6e68120363f46dad5e98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 02/49] fix: do not reuse the samples and selections of a
 previous survey

---
 popsynth/population_synth.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b4f7031..0b73751 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -939,6 +939,27 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         return log_fobs
 
+    def _reset_samplers(self) -> None:
+        """
+        Reset all attached samplers and selections
+        """
+
+        for k, v in self._auxiliary_observations.items():
+
+            v.reset()
+
+        if self._derived_luminosity_sampler is not None:
+
+            self._derived_luminosity_sampler.reset()
+
+        self._flux_selector.reset()
+
+        self._distance_selector.reset()
+
+        if self._spatial_selector is not None:
+
+            self._spatial_selector.reset()
+
     def draw_survey(
         self,
         flux_sigma: Optional[float] = None,
@@ -970,6 +991,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
             self._spatial_distribution.name
         ] = self._spatial_distribution.truth
 
+        # forget anything that was sampled in a previous survey
+
+        self._reset_samplers()
+
         # set the random seed
 
         np.random.seed(self._seed)
-- 
2.43.0


From 4e23352fe9a32a15ea71285586f38edca6c145e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 03/49] fix: pass the distances of the selected objects to the
 distance selection

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0b73751..8e89f4d 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1374,6 +1374,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From eb422dbd6380ca521d71394941062d63f3ded45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 04/49] fix: surveys in which no selected object has a known
 distance

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8e89f4d..21477f6 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1388,13 +1388,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
-        else:
+        elif global_selection.n_selected == 0:
 
             log.warning("No Objects detected")
 
-- 
2.43.0


From 7e89b8899ab16af2c4906993117a522b3d80f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 05/49] fix: set inherited selection parameters of auxiliary
 samplers in from_dict

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 21477f6..8b8bdcf 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -692,9 +692,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From a29cd7d8b687e69525d24baf0717f52ef28d9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 06/49] fix: store the registered name of derived luminosity
 samplers in to_dict

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8b8bdcf..1688a55 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -302,7 +302,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From b11fb56eaa7fa34a3c4a42bd437a59ae0cac2786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 07/49] fix: do not mistake is_rate for the name of the spatial
 distribution

---
 popsynth/population_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 1688a55..657c265 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -389,7 +389,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         tmp = input["spatial distribution"]
 
-        sd_name = list(tmp.keys())[0]
+        sd_name = [k for k in tmp.keys() if k != "is_rate"][0]
 
         spatial_distribution: SpatialDistribution = distribution_registry[
             sd_name
-- 
2.43.0


From b6f31996104c3df1c935aa8e654f675b098122f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 08/49] fix: store the probability under the name that is read
 back

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From ded79b546e5a65fd8c068547a43962311bf765cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 09/49] fix: read the name and forms of a population back as
 strings

---
 popsynth/population.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..79b6f51 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -30,6 +30,18 @@ wine = "#8F2727"
 dark, dark_highlight, mid, mid_highlight, light, light_highlight = betagen(wine)
 
 
+def _decode(value) -> Optional[str]:
+    """
+    Convert an HDF5 string attribute to a python string
+    """
+
+    if isinstance(value, bytes):
+
+        return value.decode()
+
+    return value
+
+
 class Population(object):
     def __init__(
         self,
@@ -599,7 +611,9 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = np.string_(self._lf_form)
 
             f.attrs["has_lf"] = True
 
@@ -607,7 +621,11 @@ class Population(object):
             f.attrs["has_lf"] = False
 
         f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +741,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _decode(f.attrs.get("lf_form"))
 
             else:
 
@@ -739,9 +757,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = _decode(f.attrs["name"])
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = _decode(f.attrs.get("spatial_form"))
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
-- 
2.43.0


From 73a0372865300d15360095694d8e8d96caefe6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 10/49] fix: read the graph of a population back as a directed
 graph

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 79b6f51..b3ece7e 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -810,7 +810,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From b6f77a272ba91cb3c94fb9eeaea19287094d8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 11/49] fix: keep the known distances of the objects in a
 sub-population

---
 popsynth/population.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index b3ece7e..0513b55 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -886,6 +886,11 @@ class Population(object):
 
             new_aux = None
 
+        # the known distances are indexed within the selected objects
+        # so that those which were not selected have none
+
+        known_idx = set(self._known_distance_idx) if observed else set()
+
         itr = 0
         known_distances = []
         known_distance_idx = []
@@ -895,7 +900,7 @@ class Population(object):
 
             if s:
 
-                if i in self._known_distances:
+                if itr in known_idx:
 
                     known_distances.append(self._distances[i])
                     known_distance_idx.append(itr)
@@ -918,8 +923,8 @@ class Population(object):
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
             known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distance_idx=np.array(known_distance_idx, dtype=int),
+            unknown_distance_idx=np.array(unknown_distance_idx, dtype=int),
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
-- 
2.43.0


From 40d87c1b910f4041aa4025e38476ffff9282bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 12/49] fix: pass the population synth on to sub-populations so
 that they can be saved

---
 popsynth/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index 0513b55..97c41ae 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -943,6 +943,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From bc173fc38c9cb123a14b32291cb5e1a7a90f2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 13/49] fix: use boolean selections for subsets of simulated
 variables

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..81e0e12 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones_like(selected, dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros_like(non_selected, dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From c9d991ba00c243501f7b66202d536e60fecb9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 14/49] fix: keep observed and latent values apart for in-place
 math on simulated variables

---
 popsynth/simulated_variable.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 81e0e12..920d951 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -164,12 +164,26 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        # the latent values must not be written into the output
+        # as this holds the observed values
+
+        latent_kwargs = dict(kwargs)
+
+        if out is not None:
+
+            latent_kwargs['out'] = tuple(
+                np.array(output._latent_values)
+                if isinstance(output, SimulatedVariable)
+                else (None if output is None else np.array(output))
+                for output in outputs
+            )
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -211,6 +225,10 @@ class SimulatedVariable(np.ndarray):
 
                 out = output
 
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values = latent_result
+
             final_results.append(out)
 
         results = tuple(final_results)
-- 
2.43.0


From 47319d1b3d6b25fc04c0a5a1b69ab57a3b772911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 15/49] fix: compare draws against the normalized function when
 normalizing without progress bars

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From e02aae7590e1acc395334eb892b760745f3ee9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 16/49] fix: truncate the log10 normal sampler in log10

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From 002293476b9a5450295c8cb27388a935ccc573f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 17/49] fix: reject classes with more than one normalization
 parameter

---
 popsynth/utils/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..c1e101d 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -171,6 +171,8 @@ class ParameterMeta(type):
 
                         raise AssertionError("Can only have 1 normalization")
 
+                    norm_counter += 1
+
         return cls
 
     def __subclasscheck__(cls, subclass):
-- 
2.43.0


From 4db4f78f5c636d2655a63d03c1f2b0168d379edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 18/49] fix: graph of nested secondary samplers that use
 distances

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
-- 
2.43.0


From 8f126dd7934a238c9df02d5dd8cac2f6c4aefdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 19/49] fix: pass luminosities on to all nested secondary
 samplers

---
 popsynth/auxiliary_sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..2524a46 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -363,6 +363,10 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
+                if v.uses_luminosity and hasattr(self, "_luminosity"):
+
+                    v.set_luminosity(self._luminosity)
+
                 v.draw(size=size)
 
             # Now, it is assumed that if this sampler depends on the previous samplers,
-- 
2.43.0


From f00af402ed1c1af567722f742b16ca5061071cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 20/49] fix: normalize the density of the log10 normal
 distribution

---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 4ce92d72b636a55b65c76b7ae0200f9271404030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 21/49] fix: do not truncate densities that are evaluated on
 integers

---
 popsynth/distributions/bpl_distribution.py    | 2 +-
 popsynth/distributions/pareto_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..06b9c12 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -109,7 +109,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     # creatre a holder for the values
     x = np.atleast_1d(x)
 
-    out = np.zeros_like(x)
+    out = np.zeros_like(x, dtype=float)
 
     # get the total integral to compute the normalization
     _, _, C = integrate_pl(x0, x1, x2, a1, a2)
diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..1ffb57e 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,7 +32,7 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        out = np.zeros_like(L)
+        out = np.zeros_like(L, dtype=float)
 
         idx = L >= self.Lmin
 
-- 
2.43.0


From c43c765dbc9600317c8aac14fcc977a721d71556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 22/49] fix: broken power laws with an index of -1

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 06b9c12..851fd2a 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_segment(x0, x1, a):
+    """
+    Integrate x^a between x0 and x1
+    """
+
+    if a == -1:
+
+        return np.log(x1 / x0)
+
+    return (np.power(x1, a + 1.0) - np.power(x0, a + 1.0)) / (a + 1)
+
+
+def _sample_segment(u, x0, x1, a):
+    """
+    Inverse transform sample x^a between x0 and x1
+    """
+
+    if a == -1:
+
+        return x0 * np.power(x1 / x0, u)
+
+    return np.power(
+        u * (np.power(x1, a + 1.0) - np.power(x0, a + 1.0))
+        + np.power(x0, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_segment(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_segment(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_segment(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_segment(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 0cbd25e2df1e2995efa3745d50d7fd0430bed7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 23/49] fix: restore the logs after they have been silenced
 more than once

---
 popsynth/utils/logging.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..b8fe351 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -133,6 +133,13 @@ class LoggingState(object):
             popsynth_console_log_handler.level
         )
 
+    def _is_silent(self):
+
+        return (
+            self.popsynth_usr_log_handler.level == logging.CRITICAL
+            and self.popsynth_console_log_handler.level == logging.CRITICAL
+        )
+
     def restore_last_state(self):
 
         self.popsynth_usr_log_handler.setLevel(
@@ -144,8 +151,10 @@ class LoggingState(object):
 
     def silence_logs(self):
 
-        # store the state
-        self._store_state()
+        # store the state unless the logs are silent already
+        if not self._is_silent():
+
+            self._store_state()
 
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
-- 
2.43.0


From eea363a0879f36544fa1f47ebac06b1ce313e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 24/49] fix: sample the declination rather than the polar angle

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..101f6cc 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.arcsin(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From c26a1c6fa24e5056a12e9419192755beda165470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 25/49] fix: assign the polar and azimuthal angles of spiral
 galaxies correctly

---
 popsynth/distributions/spiral_galaxy_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..7f88d4f 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -100,6 +100,6 @@ class SpiralGalaxyDistribution(SphericalDistribution):
 
         phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
 
-        self._theta = spiraltheta
-
-        self._phi = phi
+        # theta is the polar and phi the azimuthal angle
+        self._theta = phi
+        self._phi = spiraltheta
-- 
2.43.0


From ede983cf6b1ee1f9e2bbf32c2355c3f86af15776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 26/49] fix: pass luminosities through secondary samplers that
 do not use them

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 2524a46..818862c 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -363,7 +363,7 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
-                if v.uses_luminosity and hasattr(self, "_luminosity"):
+                if hasattr(self, "_luminosity"):
 
                     v.set_luminosity(self._luminosity)
 
-- 
2.43.0


From a27927a430e04022f87c0d734041675a2bf2029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 27/49] fix: save the numpy scalars that are read back from
 HDF5 files

---
 popsynth/utils/hdf5_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..9ba756d 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -46,7 +46,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
                 raise ValueError("Cannot save %s type" % type(item))
 
         if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
+            item, (np.ndarray, np.generic, str, bytes, float, int)
         ):
 
             h5file[path + "/" + key] = item
-- 
2.43.0


From 7094673b69fe3a8f648c49e3c3127cd01b09f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 28/49] fix: rebuild the graph from the samplers that are
 attached

---
 popsynth/population_synth.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 657c265..9bb7f91 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1542,6 +1542,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start from scratch so that nothing is left over from
+        # samplers that are no longer attached
+
+        self._graph = nx.DiGraph()
+
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
-- 
2.43.0


From dd6f99485db902492abd427419b3c5a5a93f90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 29/49] fix: do not share parameters and model spaces with
 drawn populations

---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 9bb7f91..35544dc 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1409,7 +1409,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1428,8 +1428,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From 2dcb217957a018e30e8b8e531efd5c7c9e050130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 30/49] fix: store the spatial truths once all parameters have
 values

---
 popsynth/population_synth.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 35544dc..7e7d349 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -992,11 +992,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-        # store the spatial distributVion truths
-        truth[
-            self._spatial_distribution.name
-        ] = self._spatial_distribution.truth
-
         # forget anything that was sampled in a previous survey
 
         self._reset_samplers()
@@ -1080,6 +1075,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._spatial_distribution.draw_sky_positions(size=n)
 
+        # store the spatial distribution truths
+        truth[
+            self._spatial_distribution.name
+        ] = self._spatial_distribution.truth
+
         distances = self._spatial_distribution.distances  # type: np.ndarray
 
         log.info("Expecting %d total objects" % n)
-- 
2.43.0


From 5aad9f0fda98a06f54c55db65316e6556d0c8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 31/49] fix: recognize normalization parameters that have not
 been set

---
 popsynth/distribution.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..080d10b 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -45,6 +45,18 @@ class Distribution(
         self._parameter_storage: Dict[str, float] = {}
         self._normalization_parameter: Optional[str] = None
 
+        for cls in type(self).__mro__:
+
+            for k, v in vars(cls).items():
+
+                if (
+                    isinstance(v, Parameter)
+                    and v.is_normalization
+                    and self._normalization_parameter is None
+                ):
+
+                    self._normalization_parameter = k
+
         self._seed = seed  # type: int
         self._name = name  # type: str
         self._form = form  # type: str
@@ -54,7 +66,7 @@ class Distribution(
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        return getattr(self, self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
-- 
2.43.0


From 24dd1ad5d149c5cff9d0c6586d891ca2b9283a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 32/49] fix: store the truth of nested secondary samplers

---
 popsynth/population_synth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7e7d349..e51526d 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -966,6 +966,20 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             self._spatial_selector.reset()
 
+    def _collect_truth(self, sampler: AuxiliarySampler, truth: dict) -> None:
+        """
+        Store the truth of a sampler and of all its secondary samplers
+
+        :param sampler: the sampler
+        :param truth: the dictionary that holds the truths
+        """
+
+        truth[sampler.name] = sampler.truth
+
+        for k, v in sampler.secondary_samplers.items():
+
+            self._collect_truth(v, truth)
+
     def draw_survey(
         self,
         flux_sigma: Optional[float] = None,
@@ -1191,7 +1205,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # this will _could_ be clobbered later
                 # but that is ok
 
-                truth[v2.name] = v2.truth
+                self._collect_truth(v2, truth)
 
         else:
 
@@ -1265,7 +1279,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 # store the secondary truths
 
-                truth[v2.name] = v2.truth
+                self._collect_truth(v2, truth)
 
         # pbar.update()
 
-- 
2.43.0


From 14e6fe7f93535e850ded7a410d9d1bcefb803c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 33/49] fix: let the seed determine the draws of the power law
 sampler

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..f365185 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,13 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # the random numbers must come from numpy as the generator
+        # of numba does not know about the seed
+
+        u = np.random.uniform(0, 1, size=size)
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            u, self.xmin, self.xmax, self.alpha
         )
 
     def observation_sampler(self, size: int):
@@ -157,25 +162,23 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
-
-    out = np.empty(size)
+def _sample_power_law(u, xmin, xmax, alpha):
 
-    for i in range(size):
+    out = np.empty(len(u))
 
-        u = np.random.uniform(0, 1)
+    for i in range(len(u)):
 
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
+                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u[i]
                 + np.power(xmin, alpha + 1),
                 1.0 / (alpha + 1.0),
             )
 
         else:
 
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
+            x = xmin * np.exp(u[i] / (1.0 / np.log(xmax / xmin)))
 
         out[i] = x
 
-- 
2.43.0


From 569e469a818b6221ea41738a9ac8bb9cc794c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 34/49] fix: connect unobserved samplers that use distances in
 the graph

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index e51526d..a39f386 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1614,9 +1614,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 708595132ed72b89728e1ea7b89b6e870f861f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 35/49] fix: show observed secondaries of derived luminosity
 samplers in the graph

---
 popsynth/population_synth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index a39f386..4292033 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1590,6 +1590,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(k2)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
-- 
2.43.0


From 4f6b84dd484caca2a453785f72667b984693d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:51 +0000
Subject: [PATCH 36/49] fix: store an empty dictionary so that it can be loaded
 again

---
 popsynth/utils/hdf5_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 9ba756d..69f21a8 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -13,6 +13,12 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     :param dic: Dictionary to save
     :type dic: Dict[Any, Any]
     """
+    if len(dic) == 0:
+
+        # nothing to store, but it can be loaded again
+
+        h5file.require_group(path)
+
     for key, item in dic.items():
 
         if isinstance(item, list):
@@ -57,9 +63,11 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 h5file[path + "/" + key] = "FILL_VALUE"
 
-            recursively_save_dict_contents_to_group(
-                h5file, path + "/" + key + "/", item
-            )
+            else:
+
+                recursively_save_dict_contents_to_group(
+                    h5file, path + "/" + key + "/", item
+                )
         else:
             raise ValueError("Cannot save %s type" % type(item))
 
-- 
2.43.0


From e8d80803cfc5ebef6e9d17a49bd54f6a4dad42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 37/49] fix: log-uniform luminosity density is zero outside its
 limits

---
 popsynth/distributions/uniform_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/uniform_distribution.py b/popsynth/distributions/uniform_distribution.py
index c986264..de064d4 100644
--- a/popsynth/distributions/uniform_distribution.py
+++ b/popsynth/distributions/uniform_distribution.py
@@ -41,7 +41,9 @@ class LogUniLuminiosityDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return 1.0 / (L * np.log(self.Lmax / self.Lmin))
+        inside = (L >= self.Lmin) & (L <= self.Lmax)
+
+        return np.where(inside, 1.0 / (L * np.log(self.Lmax / self.Lmin)), 0.0)
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 9912a34107443d3d9815d260dc0c1fea7bce54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 38/49] fix: sigma is a parameter of the broken power law
 auxiliary sampler

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index f365185..06a551a 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -114,6 +114,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From e1ff949cf55e7ef64d452553b8a91af31a98fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 39/49] fix: whole-number parameters of the power law auxiliary
 sampler

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 06a551a..8edcec7 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -90,7 +90,7 @@ class PowerLawAuxSampler(AuxiliarySampler):
         u = np.random.uniform(0, 1, size=size)
 
         self._true_values = _sample_power_law(
-            u, self.xmin, self.xmax, self.alpha
+            u, float(self.xmin), float(self.xmax), float(self.alpha)
         )
 
     def observation_sampler(self, size: int):
-- 
2.43.0


From f16cac9691961f9aa5ac1eb7dd2e359155859d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 40/49] fix: operations on a part of a simulated variable keep
 its latent values

---
 popsynth/simulated_variable.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 920d951..eb6e454 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -128,6 +128,23 @@ class SimulatedVariable(np.ndarray):
 
         return SimulatedVariable(obs, latent, selection)
 
+    def __setitem__(self, item, value):
+
+        if isinstance(value, SimulatedVariable):
+
+            # operations on a part of the variable, e.g., x[mask] *= 2,
+            # end here with both the observed and latent values
+
+            latent = np.array(self._latent_values)
+
+            latent[item] = value._latent_values
+
+            value = value.view(np.ndarray)
+
+            self._latent_values = latent
+
+        super().__setitem__(item, value)
+
     def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
         args = []
         in_no = []
-- 
2.43.0


From 0ad5fe1c592a230e1d35c649147356feabbb3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 41/49] fix: silencing logs that are at the critical level
 already remembers their levels

---
 popsynth/utils/logging.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index b8fe351..57259cd 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -126,6 +126,8 @@ class LoggingState(object):
             popsynth_console_log_handler.level
         )
 
+        self._silenced = False
+
     def _store_state(self):
 
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
@@ -136,12 +138,15 @@ class LoggingState(object):
     def _is_silent(self):
 
         return (
-            self.popsynth_usr_log_handler.level == logging.CRITICAL
+            self._silenced
+            and self.popsynth_usr_log_handler.level == logging.CRITICAL
             and self.popsynth_console_log_handler.level == logging.CRITICAL
         )
 
     def restore_last_state(self):
 
+        self._silenced = False
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
@@ -157,6 +162,8 @@ class LoggingState(object):
             self._store_state()
 
         # silence the logs
+        self._silenced = True
+
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
 
@@ -165,6 +172,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._silenced = False
+
         # silence the logs
 
         self.popsynth_usr_log_handler.setLevel(logging.INFO)
@@ -175,6 +184,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._silenced = False
+
         # silence the logs
         self.popsynth_console_log_handler.setLevel(logging.DEBUG)
 
-- 
2.43.0


From 96d31f0adc04f556894165a6a5fdea5786b85f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 42/49] fix: numpy values of parameters can be written to YAML

---
 popsynth/population_synth.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 4292033..c084561 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -34,6 +34,30 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+def _to_builtin(value: Any) -> Any:
+    """
+    Replace numpy numbers by builtin numbers at every level of a
+    dictionary
+
+    :param value: the dictionary or one of its items
+    :returns: a copy without numpy numbers
+    """
+
+    if isinstance(value, dict):
+
+        return {k: _to_builtin(v) for k, v in value.items()}
+
+    if isinstance(value, list):
+
+        return [_to_builtin(v) for v in value]
+
+    if isinstance(value, np.generic):
+
+        return value.item()
+
+    return value
+
+
 class PopulationSynth(object, metaclass=ABCMeta):
     def __init__(
         self,
@@ -194,7 +218,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             yaml.dump(
                 stream=f,
-                data=self.to_dict(),
+                data=_to_builtin(self.to_dict()),
                 default_flow_style=False,
                 Dumper=yaml.SafeDumper,
             )
-- 
2.43.0


From d177388ff8aa0239726cb86aa82d7d61ca59e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 43/49] fix: selections of samplers on distances and
 luminosities survive conversion to a dictionary

---
 popsynth/auxiliary_sampler.py | 25 +++++++++++++++++++++----
 popsynth/population_synth.py  | 20 ++++++++------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 818862c..4a2b18a 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -507,6 +507,26 @@ class AuxiliarySampler(
 
         return recursive_secondaries
 
+    def _selection_to_dict(self) -> Dict[str, Any]:
+        """
+        Convert the selection to a dictionary. What is selected on
+        is stored unless it is the observed value.
+
+        :returns: Dict of the selection
+        :rtype: Dict[str, Any]
+        """
+
+        selection = {}
+        selection[self.selector._selection_name] = self.selector.parameters
+
+        for quantity in ["distance", "luminosity", "flux"]:
+
+            if getattr(self.selector, f"_use_{quantity}"):
+
+                selection["use"] = quantity
+
+        return selection
+
     def get_secondary_objects(
         self,
         recursive_secondaries: Optional[Dict[str, Any]] = None,
@@ -544,10 +564,7 @@ class AuxiliarySampler(
 
         tmp["secondary"] = list(self.secondary_samplers.keys())
 
-        selection = {}
-        selection[self.selector._selection_name] = self.selector.parameters
-
-        tmp["selection"] = selection
+        tmp["selection"] = self._selection_to_dict()
 
         recursive_secondaries[self._name] = tmp
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index c084561..3380215 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -311,10 +311,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp["secondary"] = list(v.secondary_samplers.keys())
 
-            selection = {}
-            selection[v.selector._selection_name] = v.selector.parameters
-
-            tmp["selection"] = selection
+            tmp["selection"] = v._selection_to_dict()
 
             aux_samplers[k] = tmp
 
@@ -339,12 +336,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._derived_luminosity_sampler.secondary_samplers.keys()
             )
 
-            selection = {}
-            selection[
-                self._derived_luminosity_sampler.selector._selection_name
-            ] = self._derived_luminosity_sampler.selector.parameters
-
-            tmp["selection"] = selection
+            tmp[
+                "selection"
+            ] = self._derived_luminosity_sampler._selection_to_dict()
 
             aux_samplers[self._derived_luminosity_sampler.name] = tmp
 
@@ -698,7 +692,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 if selection is not None:
 
-                    sel_name = list(selection.keys())[0]
+                    sel_name = [k for k in selection.keys() if k != "use"][0]
 
                     log.debug(f"adding selection {sel_name}")
 
@@ -726,7 +720,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                                 break
 
-                    selector._use_obs_value = True
+                    quantity = selection.get("use", "obs_value")
+
+                    setattr(selector, f"_use_{quantity}", True)
 
                     tmp.set_selection_probability(selector)
 
-- 
2.43.0


From 572f1c4c661509c982ce6d6d3c332d51c3606862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 44/49] fix: resetting a selection that was drawn directly
 forgets it

---
 popsynth/selection_probability/selection_probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..9733c03 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -111,7 +111,7 @@ class SelectionProbability(
         """
         Reset the selector.
         """
-        if self._is_sampled:
+        if self._is_sampled or self._selection is not None:
 
             log.info(f"Selection: {self.name} is being reset")
 
-- 
2.43.0


From 837f24bf86b0d54df423f184bd3c7cef004a5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 45/49] fix: plots of true fluxes showed the observed ones

---
 popsynth/population.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 97c41ae..9ab5fc5 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1001,7 +1001,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -1017,12 +1017,14 @@ class Population(object):
         try:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min(
+                    [self._fluxes.latent.min(), self._fluxes.selected.min()]
+                )
             )
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.min())
+            ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
@@ -1072,7 +1074,9 @@ class Population(object):
         ax.set_yscale("log")
 
         ax.set_ylim(
-            bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+            bottom=min(
+                [self._fluxes.latent.min(), self._fluxes.selected.min()]
+            )
         )
         ax.set_xlim(right=self._r_max)
 
@@ -1113,7 +1117,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.latent[self._selection],
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 1c129b401e6b0a48b686be58411791f2b77b6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 46/49] fix: nodes of observed values of primary and nested
 samplers are marked as observed

---
 popsynth/auxiliary_sampler.py | 2 +-
 popsynth/population_synth.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 4a2b18a..609a174 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -482,7 +482,7 @@ class AuxiliarySampler(
                     graph.add_edge(k, primary)
 
                     if v.observed:
-                        graph.add_node(v.obs_name, observed=False)
+                        graph.add_node(v.obs_name, observed=True)
                         graph.add_edge(k, v.obs_name)
 
                     if v.uses_distance:
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 3380215..0b95885 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1640,7 +1640,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             self._graph.add_node(k, observed=False)
 
             if v.observed:
-                self._graph.add_node(v.obs_name, observed=False)
+                self._graph.add_node(v.obs_name, observed=True)
                 self._graph.add_edge(k, v.obs_name)
 
             if v.uses_distance:
-- 
2.43.0


From 5b53494c875abae52139289f812ca952a3840430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 47/49] fix: text form of a population synth without a
 luminosity distribution

---
 popsynth/population_synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0b95885..f7ba36c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1523,6 +1523,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
     def __repr__(self) -> str:
 
+        out = ""
+
         if self._has_derived_luminosity:
 
             out = "Luminosity Function\n"
-- 
2.43.0


From 30f58ff3063fc85fc614786bd3223e381d1510b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 48/49] fix: graph of a population synth without a luminosity
 distribution

---
 popsynth/population_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f7ba36c..3abd9e8 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1629,7 +1629,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     spatial_distribution=self._spatial_distribution,
                 )
 
-        else:
+        elif self._luminosity_distribution is not None:
             self._graph.add_edge(self._luminosity_distribution.name, "obs_flux")
         # now do the same fro everything else
 
-- 
2.43.0


From c6acdc7937b79a3cdc514f6d39c9db0c3ba014fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 49/49] fix: form of the spiral galaxy distribution was never
 used

---
 popsynth/distributions/spiral_galaxy_distribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index 7f88d4f..1586b3a 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -40,8 +40,9 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         :type R0: :class:`DistributionParameter`
         """
 
-        spatial_form = r"\rho \Big(\frac{r + R_1}{R_0+R_1}\Big)^a "
-        spatial_form += r"\exp\Big[-b \frac{r-R_0}{R_0 + R_1}\Big]"
+        if form is None:
+            form = r"\rho \Big(\frac{r + R_1}{R_0+R_1}\Big)^a "
+            form += r"\exp\Big[-b \frac{r-R_0}{R_0 + R_1}\Big]"
 
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
-- 
2.43.0

