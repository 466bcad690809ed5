From 9387aa94b749ddd35f6eb0940905028c382a7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 01/20] fix: avoid overflow of inverse distance weighting at
 the nodes of regbin maps

---
 appletree/interpolation.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..7711165 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -9,6 +9,9 @@ export, __all__ = exporter(export_self=False)
 
 FLOAT_POS_MIN = jnp.finfo(jnp.float32).tiny
 FLOAT_POS_MAX = jnp.finfo(jnp.float32).max
+# Smallest distance in inverse distance weighting. The inverse of FLOAT_POS_MIN is
+# so large that its product with the map value overflows at the nodes of the map.
+DISTANCE_MIN = FLOAT_POS_MIN**0.5
 
 
 @jit
@@ -152,10 +155,10 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     ref_pos3 = ref_pos_lowers + bin_sizes * ind3
     ref_pos4 = ref_pos_lowers + bin_sizes * ind4
 
-    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr2 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos2 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
+    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr2 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos2 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
 
     val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
     val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
@@ -212,14 +215,14 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     ref_pos7 = ref_pos_lowers + bin_sizes * ind7
     ref_pos8 = ref_pos_lowers + bin_sizes * ind8
 
-    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr2 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos2 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr5 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos5 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr6 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos6 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
-    dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
+    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr2 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos2 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr5 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos5 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr6 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos6 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
+    dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), DISTANCE_MIN, FLOAT_POS_MAX)
 
     val = (
         val1 / dr1
-- 
2.43.0


From 7619c815c19cc8add990d6df02a98e2bd6681332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 02/20] fix: draw the side and the magnitude of twohalfnorm
 from independent keys

---
 appletree/randgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..6b35db8 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,8 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    # The magnitude should be independent of the side
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 8e4dc7ac8f68485254741520f90ed8ad64be9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 03/20] fix: sides of scalar TwoHalfNorm.rvs with python float
 sigmas

---
 appletree/randgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6b35db8..c4dc000 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -554,7 +554,7 @@ class TwoHalfNorm:
         pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
 
         use_pos_half = np.random.uniform(size=size) < pos_half_prob
-        use_neg_half = ~use_pos_half
+        use_neg_half = np.logical_not(use_pos_half)
 
         n_sigma = np.abs(np.random.normal(size=size))
         offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
-- 
2.43.0


From cb6109853cef23f6f82dfae6fc7252834288d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 04/20] fix: drop cached posterior when a new fitting is
 prepared

---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..25f075a 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -223,6 +223,9 @@ class Context:
     ):
         """Prepare for fitting, initialize backend and sampler."""
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
+        # The cached posterior belongs to the previous sampler
+        self.__dict__.pop("_logp", None)
+        self.__dict__.pop("_chain", None)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
             self._ndim,
-- 
2.43.0


From dae4154973024f5ede4428d4c2e37b3a2c4b4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 05/20] fix: parse the instruct saved in the backend as JSON

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 25f075a..312e464 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From 042388eaa1d5cfa44fd3cfacf958e1ce6ba93a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 06/20] fix: continue fitting itself when the context has no
 backend file

---
 appletree/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 312e464..580d428 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -286,6 +286,8 @@ class Context:
         # If context is None, use self, i.e. continue the fitting defined in self
         if context is None:
             context = self
+        if context is self and self.backend_h5 is not None:
+            # The final iteration is stored in the backend
             p0 = None
         else:
             # Final iteration
-- 
2.43.0


From 92bc6bf484f7d1cf27d412bcd1637871ea603420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 07/20] fix: save manually set par_config in the instruct of
 the backend

---
 appletree/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 580d428..7a8bdba 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -37,6 +37,9 @@ class Context:
         if "url_base" in instruct.keys():
             self.update_url_base(instruct["url_base"])
 
+        if par_config is not None:
+            # The instruct should be complete because it is saved in the backend
+            instruct = {**instruct, "par_config": copy.deepcopy(par_config)}
         self.instruct = instruct
         self.config = instruct.get("configs", {})
         set_global_config(self.config)
@@ -441,9 +444,11 @@ class Context:
         """Get configuration for parameter manager.
 
         Args:
-            par_config: str, parameters configuration file.
+            par_config: str or dict, parameters configuration file or dictionary.
 
         """
+        if isinstance(par_config, dict):
+            return copy.deepcopy(par_config)
         par_config = load_json(par_config)
         return par_config
 
-- 
2.43.0


From c857dc258c4767270ad2cc906daeb8710c58d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 08/20] fix: use configs owned by the plugin instance in its
 lineage

---
 appletree/plugin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..b1af349 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,9 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    # self.takes_config is shared by all instances of the plugin,
+                    # so use the configurations owned by this instance
+                    [getattr(self, v.name).lineage for v in self.takes_config.values()],
                 )
             ),
         }
-- 
2.43.0


From 1fcd7c9682c48cab859e947e807ab3c7e0a22135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 09/20] fix: plot maps owned by each likelihood

---
 appletree/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..3de4660 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -14,6 +14,7 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
+from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -469,11 +470,12 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                # The configs of the plugin class are shared by all likelihoods,
+                # so look up the instance used in the simulation
+                instance = _cached_functions[component.llh_name][work[0] + "_" + component.name]
 
-                for config in plugin_class.takes_config.values():
+                for config_name in instance.takes_config:
+                    config = getattr(instance, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From bf608a388c0627a54ce979338e8d0eb483640b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 10/20] fix: allow several simulated components in one
 likelihood

---
 appletree/component.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..57ef3b2 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -381,13 +381,8 @@ class ComponentSim(Component):
         output = "key, " + "[" + ", ".join(data_names) + "]"
         code += f"{indent}return {output}\n"
 
-        self.code = code
         self.instances = instances
-
-        if func_name in _cached_functions[self.llh_name].keys():
-            warning = f"Function name {func_name} is already cached. "
-            warning += "Running compile() will overwrite it."
-            warn(warning)
+        self.code = code
 
     @property
     def code(self):
@@ -397,7 +392,13 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
+        # Components of the same likelihood share one namespace, so only the names
+        # used by this component should not be already cached
+        names = self.instances | {self.func_name}
+        if names.isdisjoint(_cached_functions.get(self.llh_name, names)):
+            _cached_functions[self.llh_name].update(dict.fromkeys(names))
+        else:
+            _cached_functions[self.llh_name] = dict.fromkeys(names)
         self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
 
     def deduce(
-- 
2.43.0


From 35a78e8aaa9b5c1ece9ae9878f4d8e79f7a0509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 11/20] fix: do not let a plugin overwrite outputs for which
 another provider is registered

---
 appletree/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 57ef3b2..15119f4 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -374,7 +374,11 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # drop the outputs for which another provider has been registered
+            outputs = [
+                p if self._plugin_class_registry[p].__name__ == work[0] else "_" for p in work[1]
+            ]
+            provides = "key, " + ", ".join(outputs)
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From d97251ca77c9f3488dd80e507cfad4997c1166f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 12/20] fix: profile the plugins used in the simulation when
 their outputs are overridden

---
 appletree/profiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..c7e2068 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -109,7 +109,13 @@ def profile_component(
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
+        # Some of the outputs might be overridden by other plugins
+        overridden = [
+            p for p in provides if component._plugin_class_registry[p].__name__ != plugin_name
+        ]
+        plugin_class = next(
+            p for p in component._plugin_class_registry.values() if p.__name__ == plugin_name
+        )
         plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
@@ -121,7 +127,7 @@ def profile_component(
             n_runs=n_runs,
         )
 
-        data_store.update(output_data)
+        data_store.update({k: v for k, v in output_data.items() if k not in overridden})
         total_time += mean_time
 
         result = {
-- 
2.43.0


From a925cb0927d09e661af756532b5dea29592ad776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 13/20] fix: keep the parameter of SigmaMap consistent with its
 maps after compilation

---
 appletree/config.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..8c2789a 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -487,12 +487,10 @@ class SigmaMap(Config):
         self.lower.build(llh_name=self.llh_name)
         self.upper.build(llh_name=self.llh_name)
 
-        required_parameter = self.required_parameter()
-        if required_parameter is not None:
-            print(
-                f"{self.llh_name}'s map {self.name} is using "
-                f"the parameter {required_parameter}."
-            )
+        # The parameter should be consistent with the maps, even if configs are changed later
+        self.scaler = self.required_parameter()
+        if self.scaler is not None:
+            print(f"{self.llh_name}'s map {self.name} is using the parameter {self.scaler}.")
         else:
             print(f"{self.llh_name}'s map {self.name} is static " f"and not using any parameter.")
 
@@ -541,10 +539,10 @@ class SigmaMap(Config):
 
     def apply(self, pos, parameters):
         """Apply SigmaMap with sigma and position."""
-        if self.required_parameter() is None:
+        if self.scaler is None:
             sigma = 1.0
         else:
-            sigma = parameters[self.required_parameter()]
+            sigma = parameters[self.scaler]
         median = self.median.apply(pos)
         lower = self.lower.apply(pos)
         upper = self.upper.apply(pos)
-- 
2.43.0


From a19b05c0117e941b3f01efd9550a39fb62ebe7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 14/20] fix: on_sim normalization of components without a
 plugin providing energy

---
 appletree/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 15119f4..53691d4 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,7 +80,9 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        return "Bootstrap" in self._plugin_class_registry["energy"].__name__
+        # Not all components have a plugin providing energy
+        energy_plugin = getattr(self, "_plugin_class_registry", {}).get("energy", None)
+        return energy_plugin is not None and "Bootstrap" in energy_plugin.__name__
 
     def simulate_hist(self, *args, **kwargs):
         """Hook for simulation with histogram output."""
-- 
2.43.0


From 70f5cb4bea88225ebc46edb964f0049a0c82fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 15/20] fix: build SigmaMap from explicit configs without a
 default

---
 appletree/config.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 8c2789a..1a13d03 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -454,7 +454,8 @@ class SigmaMap(Config):
         """Read maps."""
         self.llh_name = llh_name
         _configs = self.get_configs()
-        _configs_default = self.get_default()
+        # The default is not mandatory if the configs are set explicitly
+        _configs_default = self.default
 
         if isinstance(_configs, list) and len(_configs) > 4:
             raise ValueError(f"You give too much information in {self.name}'s configs.")
@@ -463,24 +464,19 @@ class SigmaMap(Config):
 
         sigmas = ["median", "lower", "upper"]
         for i, sigma in enumerate(sigmas):
-            default = self._resolve_sigma_value(
-                _configs_default,
+            value = self._resolve_sigma_value(
+                _configs,
                 i,
-                "default configuration",
+                "configuration",
             )
             m = Map(
                 method=self.method,
                 name=f"{self.name}_{sigma}",
-                default=default,
+                default=value,
             )
             setattr(self, sigma, m)
 
             if self.llh_name is not None:
-                value = self._resolve_sigma_value(
-                    _configs,
-                    i,
-                    "configuration",
-                )
                 self._update_sigma_cache(m.name, value)
 
         self.median.build(llh_name=self.llh_name)
-- 
2.43.0


From 9975658fd70b2ef038c3791e63d9f3f2ab5e6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 16/20] fix: replace parameter alias of the likelihood in
 get_template

---
 appletree/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 7a8bdba..e2ff42d 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -416,6 +416,8 @@ class Context:
         parameters = self.get_post_parameters()
         key = randgen.get_key(seed=seed)
 
+        # The component only knows the parameters' names after replacing alias
+        parameters = self[likelihood_name].replace_alias(parameters)
         key, result = self[likelihood_name][component_name].simulate(
             key,
             batch_size,
-- 
2.43.0


From 967199e114d53419531ddc7eaa24da50e7364e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 17/20] fix: 1D regular binning maps could not be applied

---
 appletree/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 7711165..f53d19a 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -112,7 +112,7 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val)).flatten()
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 857963dd3dc63c750ceeff80e0f4fac3fa8ff87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 18/20] fix: return map values, not their logarithm, from
 log_point maps

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 1a13d03..438b35e 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From a68cf14ff5d2dcab4220a6422b22b5a0a8bfdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 19/20] fix: lineage of plugins with ConstantSet could not be
 dumped

---
 appletree/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 438b35e..9f39365 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -590,5 +590,6 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            # arrays can not be dumped into .json
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From 59e1315f98c93a1ce708f45003d418fb05be0218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 20/20] fix: lineage of SigmaMap misses the parameter that
 scales it

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index 9f39365..676ad0b 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -555,6 +555,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "scaler": self.scaler,
         }
 
 
-- 
2.43.0

