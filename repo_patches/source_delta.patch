From 4baead29ef9c5471af33353e80cf4c3c1ba41545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 01/69] fix: normal_trunc prior on the mean is uniform over [l,
 h]

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..6828042 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -193,7 +193,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From a98745b7493708af77d26c2e0a249c59cd5c8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 02/69] fix: normal_trunc parameter transitions target the
 posterior of the truncated density

---
 src/primitives/normal_trunc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 6828042..a4dedce 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -114,7 +114,9 @@ class NormalTrunc(DistributionGpm):
 
         # Transition mu.
         fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu) \
+            - self.N * NormalTrunc.calc_log_normalizer(
+                mu, self.sigma, self.l, self.h)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
@@ -122,8 +124,11 @@ class NormalTrunc(DistributionGpm):
 
         # Transition sigma.
         fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) \
+            - self.N * NormalTrunc.calc_log_normalizer(
+                self.mu, sigma, self.l, self.h) \
+            + NormalTrunc.calc_log_prior(
+                self.mu, sigma, self.alpha, self.beta, self.l, self.h)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From 308a9a4ddbd094512a90cf4f8afcc63fa62300af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 03/69] fix: normal_trunc keeps a given mean of zero

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index a4dedce..45f7c88 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -51,7 +51,7 @@ class NormalTrunc(DistributionGpm):
         if params is None: params = {}
         self.mu = params.get('mu', None)
         self.sigma = params.get('sigma', 1)
-        if not self.mu or not self.sigma:
+        if self.mu is None or not self.sigma:
             self.mu, self.sigma = NormalTrunc.sample_parameters(
                 self.alpha, self.beta, self.l, self.h, self.rng)
 
-- 
2.43.0


From c75bc564d20d87e4bc24425bba371eb5dacc29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 04/69] fix: geometric refuses invalid values with ValueError

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 7c949aed194bb2854a6cb315f8eee1bab35368ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 05/69] fix: beta density of boundary values agrees with how
 they are recorded

---
 src/primitives/beta.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/primitives/beta.py b/src/primitives/beta.py
index c2b375f..e8fad12 100644
--- a/src/primitives/beta.py
+++ b/src/primitives/beta.py
@@ -58,11 +58,7 @@ class Beta(DistributionGpm):
 
     def incorporate(self, rowid, observation, inputs=None):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
-        x = observation[self.outputs[0]]
-        if np.allclose(0, x):
-            x = 0.001
-        elif np.allclose(1, x):
-            x = 0.999
+        x = Beta.clamp(observation[self.outputs[0]])
         if not 0 < x < 1:
             raise ValueError('Invalid Beta: %s' % str(x))
         self.N += 1
@@ -78,7 +74,7 @@ class Beta(DistributionGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         DistributionGpm.logpdf(self, rowid, targets, constraints, inputs)
-        x = targets[self.outputs[0]]
+        x = Beta.clamp(targets[self.outputs[0]])
         if not 0 < x < 1:
             return -float('inf')
         return Beta.calc_predictive_logp(x, self.strength, self.balance)
@@ -179,6 +175,15 @@ class Beta(DistributionGpm):
     # HELPER METHODS #
     ##################
 
+    @staticmethod
+    def clamp(x):
+        # Values on the boundary are recorded slightly inside the support.
+        if np.allclose(0, x):
+            return 0.001
+        if np.allclose(1, x):
+            return 0.999
+        return x
+
     @staticmethod
     def calc_predictive_logp(x, strength, balance):
         assert strength > 0 and balance > 0 and balance < 1
-- 
2.43.0


From a7c67f172b4be3c251b29968254e0353c92d4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 06/69] fix: samples of a view are returned in the order drawn,
 not grouped by cluster

---
 src/crosscat/sampling.py |  9 +++++----
 src/mixtures/view.py     | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..335cea3 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,11 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = {
+        k: iter(_simulate_row(view, targets, k, counts[k])) for k in counts}
+    # Return samples in the order their clusters were drawn, grouping them by
+    # cluster makes samples from different views dependent.
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..1f7fb74 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,8 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
-
 from math import isnan
 
 import numpy as np
@@ -357,14 +355,17 @@ class View(CGpm):
         counts = {k:n for k, n in enumerate(np.bincount(Ks)) if n > 0}
         # Add the cluster assignment to the constraints and sample the rest.
         constr3 = {k: merged(constraints, {self.outputs[0]: k}) for k in counts}
-        samples = [network.simulate(rowid, targets, constr3[k], inputs, counts[k])
-            for k in counts]
+        samples = {
+            k: network.simulate(rowid, targets, constr3[k], inputs, counts[k])
+            for k in counts}
         # If cluster assignments are exposed, append them to the samples.
         if exposed:
-            samples = [[merged(l, {self.outputs[0]: k}) for l in s]
-                for s, k in zip(samples, counts)]
+            samples = {k: [merged(l, {self.outputs[0]: k}) for l in samples[k]]
+                for k in counts}
+        # Return the samples in the order their clusters were drawn.
+        iters = {k: iter(samples[k]) for k in counts}
+        result = [next(iters[k]) for k in Ks]
         # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From c9291ec4a63937d7923fdd9ac59e4769cccaaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 07/69] fix: column transitions align view likelihoods with the
 crp tables

---
 src/crosscat/state.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..3903e46 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,19 +1061,22 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
+        # Existing views and auxiliary views, in the order of the crp tables.
+        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
+        t_views = tables[:len(self.views)]
+        t_aux = tables[len(self.views):]
+
         # Compute logp of the dim under existing views.
         dims_proposal = [
-            self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            self._dim_get_proposal(self.views[t], dim)
+            for t in t_views
         ]
         logp_data = [
-            self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            self._dim_get_data_logp(self.views[t], dim_proposal)
+            for (t, dim_proposal) in zip(t_views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
-        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
-        t_aux = tables[len(self.views):]
         dims_proposal_aux = [self._dim_get_proposal(None, dim) for _t in t_aux]
         views_proposal_aux = [
             View(self.X, outputs=[self.crp_id_view + t], rng=self.rng)
@@ -1098,7 +1101,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = tables.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From f4f64c89b3b213bd39a85ac23dddb68e542ce913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 08/69] fix: column concentration is inferred under the
 constrained prior when columns are tied

---
 src/crosscat/state.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 3903e46..bdba3f8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -761,7 +761,17 @@ class State(CGpm):
             kernel_funcs, N=N, S=S, progress=progress, checkpoint=checkpoint)
 
     def transition_crp_alpha(self):
-        self.crp.transition_hypers()
+        if self.Cd and not self.Ci:
+            # The prior on the column partition is the constrained crp.
+            Zv, grid = self.Zv(), self.crp.hyper_grids['alpha']
+            logps = [
+                gu.logp_crp_constrained_dependent(Zv, alpha, self.Cd)
+                for alpha in grid
+            ]
+            index = gu.log_pflip(logps, rng=self.rng)
+            self.crp.set_hypers({'alpha': grid[index]})
+        else:
+            self.crp.transition_hypers()
         self._increment_iterations('alpha')
 
     def transition_view_alphas(self, views=None, cols=None):
-- 
2.43.0


From da8899f9172754e18144b96917c31997306d652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 09/69] fix: independence constraints of the wrong length raise
 ValueError, not IndexError

---
 src/utils/validation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index 7f2dfaf..a719ce4 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -36,6 +36,15 @@ def validate_dependency_constraints(N, Cd, Ci):
     # Allow unknown number of customers.
     if N is None:
         N = 1e10
+    for pair in Ci:
+        # Ci entries are tuples only.
+        if len(pair) != 2:
+            raise ValueError('Independencies require two customers.')
+        if N <= pair[0] or N <= pair[1]:
+            raise ValueError('Independence customer of out range.')
+        # Dummy case.
+        if pair[0] == pair[1]:
+            raise ValueError('Independency specified for same customer.')
     counts = {}
     for block in Cd:
         # Every constraint must be more than one customer.
@@ -55,15 +64,6 @@ def validate_dependency_constraints(N, Cd, Ci):
             # Ci cannot include columns in same Cd block.
             if pair[0] in block and pair[1] in block:
                 raise ValueError('Contradictory customer independence.')
-    for pair in Ci:
-        # Ci entries are tuples only.
-        if len(pair) != 2:
-            raise ValueError('Independencies require two customers.')
-        if N <= pair[0] or N <= pair[1]:
-            raise ValueError('Independence customer of out range.')
-        # Dummy case.
-        if pair[0] == pair[1]:
-            raise ValueError('Independency specified for same customer.')
     return True
 
 def check_compatible_constraints(Cd1, Ci1, Cd2, Ci2):
-- 
2.43.0


From 47de19b4c2e3cf59f71a601fb9b790538514b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 10/69] fix: parse_schema reads categorical arguments from the
 type, not the column name

---
 src/utils/data.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..08a39bb 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,24 +90,24 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        (cctype,), (distarg,) = cu.parse_distargs([stattype])
         columns.append(column)
-        cctypes.append(stattype)
+        cctypes.append(cctype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
-        if stattype in ['bernoulli', 'categorical']:
+        if cctype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
             X = X.replace(mapping)
             valmap[column] = mapping
-            if stattype == 'bernoulli':
+            if cctype == 'bernoulli':
                 assert len(mapping) == 2
             else:
                 # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From b85e938b47fa57d666f53d611023c9713dbd5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 11/69] fix: logp_crp_fresh splits a whole-number concentration
 over auxiliary tables

---
 src/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/general.py b/src/utils/general.py
index d81a96d..3ac584e 100644
--- a/src/utils/general.py
+++ b/src/utils/general.py
@@ -116,7 +116,7 @@ def logp_crp_gibbs(Nk, Z, i, alpha, m):
 def logp_crp_fresh(N, Nk, alpha, m=1):
     """Compute the CRP probabilities for a fresh customer i=N+1, with
     table counts Nk, total customers N=sum(Nk), and m auxiliary tables."""
-    log_crp_numer = np.log(Nk + [alpha/m]*m)
+    log_crp_numer = np.log(Nk + [alpha/float(m)]*m)
     logp_crp_denom = log(N + alpha)
     return log_crp_numer - logp_crp_denom
 
-- 
2.43.0


From a88590a1ac943e2f297f976df73be708ad8da85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 12/69] fix: metadata of states and views does not share live
 objects

---
 src/crosscat/state.py | 6 ++++--
 src/mixtures/view.py  | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index bdba3f8..63ab9d1 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1250,7 +1250,9 @@ class State(CGpm):
         # Factory data.
         metadata['factory'] = ('cgpm.crosscat.state', 'State')
 
-        return metadata
+        # The metadata is a snapshot, it must not share mutable objects (such
+        # as the hypers or diagnostics) with the live state.
+        return copy.deepcopy(metadata)
 
     def to_pickle(self, fileptr):
         metadata = self.to_metadata()
@@ -1274,7 +1276,7 @@ class State(CGpm):
             hypers=metadata.get('hypers', None),
             Cd=metadata.get('Cd', None),
             Ci=metadata.get('Ci', None),
-            diagnostics=metadata.get('diagnostics', None),
+            diagnostics=copy.deepcopy(metadata.get('diagnostics', None)),
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 1f7fb74..165796a 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
+
 from math import isnan
 
 import numpy as np
@@ -589,7 +591,9 @@ class View(CGpm):
         # Factory data.
         metadata['factory'] = ('cgpm.mixtures.view', 'View')
 
-        return metadata
+        # The metadata is a snapshot, it must not share mutable objects (such
+        # as the dataset or hypers) with the live view.
+        return copy.deepcopy(metadata)
 
     @classmethod
     def from_metadata(cls, metadata, rng=None):
-- 
2.43.0


From 4c8e0f644f15714f790bbaaa4e33650039d62542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 13/69] fix: views are loaded from metadata that passed through
 json

---
 src/mixtures/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 165796a..dacac5c 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -599,8 +599,10 @@ class View(CGpm):
     def from_metadata(cls, metadata, rng=None):
         if rng is None:
             rng = gu.gen_rng(0)
+        # json keys are strings -- convert back to integers.
+        X = {int(c): list(x) for c, x in metadata['X'].iteritems()}
         return cls(
-            metadata.get('X'),
+            X,
             outputs=metadata.get('outputs', None),
             inputs=metadata.get('inputs', None),
             alpha=metadata.get('alpha', None),
-- 
2.43.0


From 5ba0ac2a84376497d18922fe7b7234835123827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 14/69] fix: loading an engine does not modify its metadata

---
 src/crosscat/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..706374e 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,14 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        states = [dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
-- 
2.43.0


From 83e6c5dab729156493b07bbd50f2a57e5e0624e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 15/69] fix: metadata of regressions is independent of the live
 and loaded models

---
 src/regressions/forest.py | 13 ++++++++-----
 src/regressions/linreg.py |  5 ++++-
 src/regressions/ols.py    |  9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..df54c7f 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -233,8 +233,11 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -254,12 +257,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
@@ -267,5 +270,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..f90ba43 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,10 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..7b5b664 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,10 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
@@ -236,11 +239,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 483ac13ac74d8a375f6efb7c097f1c90a5a6af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 16/69] fix: metadata of a linear regression keeps the prior on
 the weights

---
 src/regressions/linreg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index f90ba43..0d107af 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -88,8 +88,8 @@ class LinearRegression(CGpm):
         if hypers is None: hypers = {}
         self.a = hypers.get('a', 1.)
         self.b = hypers.get('b', 1.)
-        self.mu = hypers.get('mu', np.zeros(self.p))
-        self.V = hypers.get('V', np.eye(self.p))
+        self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
+        self.V = np.asarray(hypers.get('V', np.eye(self.p)))
 
     def incorporate(self, rowid, observation, inputs=None):
         assert rowid not in self.data.x
@@ -346,7 +346,10 @@ class LinearRegression(CGpm):
             'Y': OrderedDict(self.data.Y),
         }
         metadata['distargs'] = self.get_distargs()
-        metadata['hypers'] = self.get_hypers()
+        # The mean and covariance of the weights are fixed, so they are not in
+        # get_hypers, which has the hypers that are inferred.
+        metadata['hypers'] = dict(
+            self.get_hypers(), mu=self.mu.tolist(), V=self.V.tolist())
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From 1573f6d410d582df132134536d3c00757010dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 17/69] fix: a state built with conditional columns is
 composite

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 63ab9d1..9c1209a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From bab7105c958f26d44635143626d88fe7e8069882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 18/69] fix: composed cgpms keep their tokens when a state is
 loaded

---
 src/crosscat/state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 9c1209a..bd4c3ce 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1280,12 +1280,15 @@ class State(CGpm):
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
-        # Hook up the composed CGPMs.
-        for token, cgpm_metadata in metadata['hooked_cgpms'].iteritems():
+        # Hook up the composed CGPMs, under the same tokens.
+        # json keys are strings -- convert back to integers.
+        hooked = {int(t): m for t, m in metadata['hooked_cgpms'].iteritems()}
+        for token, cgpm_metadata in sorted(hooked.iteritems()):
             builder = getattr(
                 importlib.import_module(cgpm_metadata['factory'][0]),
                 cgpm_metadata['factory'][1])
             cgpm = builder.from_metadata(cgpm_metadata, rng=rng)
+            state.token_generator = itertools.count(start=token)
             state.compose_cgpm(cgpm)
         return state
 
-- 
2.43.0


From f84b758497a8029d7dd9a9da2459b96e9950ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 19/69] fix: a forced cell reaches the conditional columns that
 use it as input

---
 src/mixtures/view.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index dacac5c..a687b53 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -185,10 +185,14 @@ class View(CGpm):
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         k = self.Zr(rowid)
-        for d in observation:
+        # The cell is also an input of the conditional dims that use it.
+        dims = [d for d in self.dims if d in observation
+            or any(i in observation for i in self.dims[d].inputs[1:])]
+        for d in dims:
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
-            self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            value = observation.get(d, self.X[d][rowid])
+            self.dims[d].incorporate(rowid, {d: value}, inputs)
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From ad1bd5d6e1920a29b5772e4c19eeca0612fb0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 20/69] fix: hypers set on a dim also apply to clusters created
 later

---
 src/mixtures/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..7e157e1 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -205,9 +205,11 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
             model.set_hypers(hypers)
+        # Clusters created later must use the new hypers.
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From 948e1d783f789157d8e03943905fd7d8bc94ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 21/69] fix: relevance of all rows of a view does not fail and
 lose the rows

---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From e6519484aa156e55f74de1349d37bb972c9a55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 22/69] fix: data of an incorporated column is copied into the
 state

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index bd4c3ce..033bde9 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -205,7 +205,7 @@ class State(CGpm):
                 % inputs)
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From ce4418be0f408144812ae13152999cb11d4c6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 23/69] fix: a refused row leaves nothing behind in the state
 and its views

---
 src/crosscat/state.py | 22 ++++++++++++++++------
 src/mixtures/view.py  | 22 +++++++++++++++++-----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 033bde9..1c675df 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -279,12 +279,22 @@ class State(CGpm):
         if self.hypothetical(rowid):
             rowid = self.n_rows()-1
         # Tell the views.
-        for v in self.views:
-            query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
-            crp_v = self.views[v].outputs[0]
-            cluster_v = {crp_v: observation[crp_v]} if crp_v in observation\
-                else {}
-            self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+        incorporated = []
+        try:
+            for v in self.views:
+                query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
+                crp_v = self.views[v].outputs[0]
+                cluster_v = {crp_v: observation[crp_v]} \
+                    if crp_v in observation else {}
+                self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+                incorporated.append(v)
+        except Exception:
+            # Refuse the whole row, not only the invalid values.
+            for v in incorporated:
+                self.views[v].unincorporate(rowid)
+            for c in self.outputs:
+                self.X[c].pop()
+            raise
         # Validate.
         self._check_partitions()
 
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index a687b53..92cd3ef 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -162,11 +162,23 @@ class View(CGpm):
         """
         k = observation.get(self.outputs[0], 0)
         self.crp.incorporate(rowid, {self.outputs[0]: k}, {-1: 0})
-        for d in self.dims:
-            self.dims[d].incorporate(
-                rowid,
-                observation={d: observation[d]},
-                inputs=self._get_input_values(rowid, self.dims[d], k))
+        incorporated = []
+        try:
+            for d in self.dims:
+                self.dims[d].incorporate(
+                    rowid,
+                    observation={d: observation[d]},
+                    inputs=self._get_input_values(rowid, self.dims[d], k))
+                incorporated.append(d)
+        except Exception:
+            # Refuse the whole row, not only the invalid values.
+            for d in incorporated:
+                self.dims[d].unincorporate(rowid)
+            self.crp.unincorporate(rowid)
+            if k not in self.Nk():
+                for dim in self.dims.itervalues():
+                    dim.clusters.pop(k, None)
+            raise
         # If the user did not specify a cluster assignment, sample one.
         if self.outputs[0] not in observation:
             self.transition_rows(rows=[rowid])
-- 
2.43.0


From 33c48ca2e7f796ad8a8161b35d669307f8f5ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 24/69] fix: relevance removes its hypothetical rows when one
 of them is refused

---
 src/crosscat/state.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1c675df..a60d462 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -618,24 +618,27 @@ class State(CGpm):
             [{d: h.get(d, np.nan) for d in view.dims} for h in hypotheticals]
         ) if hypotheticals else []
         # Produce hypothetical rowids.
-        rowid_hypothetical = range(
-            self.n_rows(), self.n_rows() + len(hypotheticals))
-        # Incorporate hypothetical rows.
-        for rowid, query in zip(rowid_hypothetical, hypotheticals):
-            for d in view.dims:
-                self.X[d].append(query[d])
-            view.incorporate(rowid, query)
-        # Compute the relevance probability.
-        rowid_all = rowid_query + rowid_hypothetical
-        relevance = all(
-            view.Zr(rowid_target) == view.Zr(rq)
-            for rq in rowid_all
-        ) if rowid_all else 0
-        # Unincorporate hypothetical rows.
-        for rowid in reversed(rowid_hypothetical):
+        n_rows = self.n_rows()
+        rowid_hypothetical = range(n_rows, n_rows + len(hypotheticals))
+        try:
+            # Incorporate hypothetical rows.
+            for rowid, query in zip(rowid_hypothetical, hypotheticals):
+                for d in view.dims:
+                    self.X[d].append(query[d])
+                view.incorporate(rowid, query)
+            # Compute the relevance probability.
+            rowid_all = rowid_query + rowid_hypothetical
+            relevance = all(
+                view.Zr(rowid_target) == view.Zr(rq)
+                for rq in rowid_all
+            ) if rowid_all else 0
+        finally:
+            # Unincorporate hypothetical rows, also if one is refused.
+            for rowid in reversed(rowid_hypothetical):
+                if not view.hypothetical(rowid):
+                    view.unincorporate(rowid)
             for d in view.dims:
-                self.X[d].pop()
-            view.unincorporate(rowid)
+                del self.X[d][n_rows:]
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From bdb89dd9cde0b98425339f354b421f1441d2b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 25/69] fix: refused cell values leave nothing behind in the
 state and its views

---
 src/crosscat/state.py | 19 ++++++++++++++-----
 src/mixtures/view.py  |  4 +++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a60d462..fc728c1 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -321,13 +321,22 @@ class State(CGpm):
             raise ValueError('Force observation requires existing rowid.')
         if not all(np.isnan(self.X[c][rowid]) for c in observation):
             raise ValueError('Force observations requires NaN cells.')
-        for col, value in observation.iteritems():
-            self.X[col][rowid] = value
         queries = vu.partition_list(
             {c: self.Zv(c) for c in observation}, observation)
-        for view_id, view_variables in queries.iteritems():
-            observation_v = {c: observation[c] for c in view_variables}
-            self.views[view_id].force_cell(rowid, observation_v)
+        try:
+            for col, value in observation.iteritems():
+                self.X[col][rowid] = value
+            for view_id, view_variables in queries.iteritems():
+                observation_v = {c: observation[c] for c in view_variables}
+                self.views[view_id].force_cell(rowid, observation_v)
+        except Exception:
+            # Refuse all the cells, not only the invalid values.
+            for col in observation:
+                self.X[col][rowid] = float('nan')
+            for view_id, view_variables in queries.iteritems():
+                observation_v = {c: float('nan') for c in view_variables}
+                self.views[view_id].force_cell(rowid, observation_v)
+            raise
 
     # --------------------------------------------------------------------------
     # Schema updates.
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 92cd3ef..5bd0931 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -201,7 +201,9 @@ class View(CGpm):
         dims = [d for d in self.dims if d in observation
             or any(i in observation for i in self.dims[d].inputs[1:])]
         for d in dims:
-            self.dims[d].unincorporate(rowid)
+            # The rowid is absent from a dim which refused its last value.
+            if rowid in self.dims[d].Zr or rowid in self.dims[d].Zi:
+                self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
             value = observation.get(d, self.X[d][rowid])
             self.dims[d].incorporate(rowid, {d: value}, inputs)
-- 
2.43.0


From 6c2d608e5f3007420afebe57c1ed8cde8d840f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 26/69] fix: a refused column leaves nothing behind in the
 state

---
 src/crosscat/state.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index fc728c1..32936cf 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -203,19 +203,17 @@ class State(CGpm):
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
                 % inputs)
-        # Append new output to outputs.
-        col = outputs[0]
-        self.X[col] = list(T)
-        self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
-        transition = [col] if v is None else []
+        if v is None:
+            self._check_transition_dims()
+        transition = [outputs[0]] if v is None else []
+        col = outputs[0]
+        T = list(T)
         # Determine correct view.
         v_add = 0 if v is None else v
-        if v_add in self.views:
-            view = self.views[v_add]
-        else:
-            view = View(self.X, outputs=[self.crp_id_view + v_add], rng=self.rng)
-            self._append_view(view, v_add)
+        fresh = v_add not in self.views
+        view = self.views[v_add] if not fresh else \
+            View(self.X, outputs=[self.crp_id_view + v_add], rng=self.rng)
         # Create the dimension.
         # XXX Does not handle conditional models; consider moving to view?
         D = Dim(
@@ -225,8 +223,17 @@ class State(CGpm):
             distargs=distargs,
             rng=self.rng
         )
-        D.transition_hyper_grids(self.X[col])
-        view.incorporate_dim(D)
+        D.transition_hyper_grids(T)
+        # Append new output to outputs, unless the view refuses its values.
+        self.X[col] = T
+        try:
+            view.incorporate_dim(D)
+        except Exception:
+            del self.X[col]
+            raise
+        self.set_outputs(self.outputs + [col])
+        if fresh:
+            self.views[v_add] = view
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
         # Transition.
         self.transition_dims(cols=transition)
@@ -1079,8 +1086,8 @@ class State(CGpm):
             return dim
         return copy.deepcopy(dim)
 
-    def _gibbs_transition_dim(self, col, m):
-        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+    def _check_transition_dims(self):
+        """Raise ValueError if columns cannot be transitioned."""
         # XXX Disable col transitions if \exists conditional model anywhere.
         if any(d.is_conditional() for d in self.dims()):
             raise ValueError(
@@ -1090,6 +1097,10 @@ class State(CGpm):
                 'Cannot transition columns with dependence constraint, '
                 'use State.transition_lovecat.')
 
+    def _gibbs_transition_dim(self, col, m):
+        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+        self._check_transition_dims()
+
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-- 
2.43.0


From c311747b251fe7b3822a60451bb6c328b9f954ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 27/69] fix: a refused change of type leaves the column as it
 was

---
 src/crosscat/state.py | 3 ++-
 src/mixtures/view.py  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 32936cf..65e428d 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -350,7 +350,8 @@ class State(CGpm):
 
     def update_cctype(self, col, cctype, distargs=None):
         """Update the distribution type of self.dims[col] to cctype."""
-        assert col in self.outputs
+        if col not in self.outputs:
+            raise ValueError('col does not exist: %s.' % (col,))
         self.view_for(col).update_cctype(col, cctype, distargs=distargs)
         self.transition_dim_grids(cols=[col])
         self.transition_dim_params(cols=[col])
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 5bd0931..68f1314 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -234,8 +234,10 @@ class View(CGpm):
         D_new = Dim(
             outputs=[col], inputs=[self.outputs[0]]+inputs,
             cctype=cctype, distargs=distargs_dim, rng=self.rng)
+        # Incorporate the data first, which raises if the cctype refuses it.
+        self._bulk_incorporate(D_new)
         self.unincorporate_dim(D_old)
-        self.incorporate_dim(D_new)
+        self.incorporate_dim(D_new, reassign=False)
 
     # --------------------------------------------------------------------------
     # Inference
-- 
2.43.0


From 3c84bce7cd83ddf177056c18b0ce426351e1953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 28/69] fix: density of variables outside a composite state is
 refused, not one

---
 src/crosscat/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 65e428d..1d150e5 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -426,6 +426,9 @@ class State(CGpm):
             return sampling.state_logpdf(self, rowid, targets, constraints)
         constraints = self._populate_constraints(rowid, targets, constraints)
         network = self.build_network(accuracy=accuracy)
+        unknown = [q for q in targets if q not in network.v_to_c]
+        if unknown:
+            raise ValueError('Targets do not exist: %s.' % (unknown,))
         return network.logpdf(rowid, targets, constraints, inputs)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 38bc0dd5130d9e74b2f99bb3fbb310948cfbee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 29/69] fix: an attached variable depends on its descendants

---
 src/crosscat/state.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1d150e5..272a6de 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -586,23 +586,14 @@ class State(CGpm):
     @staticmethod
     def _dependence_probability_composite(cgpms, Zv, col0, col1):
         # XXX Conservatively assume all outputs of a particular are dependent.
-        if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
-            return 1.
-        # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
-            else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
-            else [c for c in Zv if Zv[c]==Zv[col1]]
+        def connected(col):
+            # All ancestors, including the variable itself.
+            ancestors = set(retrieve_ancestors(cgpms, col) + [col])
+            siblings = [c.outputs for c in cgpms
+                if not ancestors.isdisjoint(c.outputs)]
+            return ancestors.union(*siblings)
         # Direct common ancestor implies dependent.
-        if set.intersection(set(ancestors0), set(ancestors1)):
-            return 1.
-        # Dependent ancestors via variable partition at root, Zv.
-        cc_ancestors0 = [Zv[i] for i in ancestors0 if i in Zv]
-        cc_ancestors1 = [Zv[i] for i in ancestors1 if i in Zv]
-        if set.intersection(set(cc_ancestors0), set(cc_ancestors1)):
-            return 1.
-        # No dependence.
-        return 0.
+        return 0. if connected(col0).isdisjoint(connected(col1)) else 1.
 
     # --------------------------------------------------------------------------
     # Row similarity.
-- 
2.43.0


From 4925b8a3598b75a2a496af48d530e756660f9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 30/69] fix: relevance with a repeated query row does not break
 the view

---
 src/mixtures/relevance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index c25f4b4..7c2ee35 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -97,6 +97,9 @@ def relevance_probability(view, rowid_target, rowid_query):
     if rowid_target in rowid_query:
         return 1.
 
+    # A row is in the query once, however often it is listed.
+    rowid_query = sorted(set(rowid_query))
+
     # Retrieve target crp assignments and data to restore later.
     assignments_target = view.Zr(rowid_target)
     values_target = row_values(view, rowid_target)
-- 
2.43.0


From 0459601b7da417264289d2f565d041b3dabd0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 31/69] fix: composite queries use the first column of an
 observed row

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 272a6de..05b7b8b 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -465,7 +465,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From 0b4377cc07ea305516dbb143a4da416fca7b9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 32/69] fix: density of an attached variable for an observed
 row

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 05b7b8b..db93edd 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -488,7 +488,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(not np.isnan(self.X[q][rowid])
+                    for q in targets if q in self.outputs):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From 7f861776d0f703207e2f22e32f86bdc0a19b2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 33/69] fix: networks simulate a tuple of targets like a list

---
 src/network/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/importance.py b/src/network/importance.py
index 0aba7eb..843f93a 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -78,7 +78,7 @@ class ImportanceNetwork(object):
 
     def weighted_sample(self, rowid, targets, constraints, inputs):
         targets_required = self.retrieve_required_inputs(targets, constraints)
-        targets_all = targets + targets_required
+        targets_all = list(targets) + targets_required
         sample = dict(constraints)
         weight = 0
         for l in self.topo:
-- 
2.43.0


From cbd665cc1209869309929abf272a57fdf20732db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 34/69] fix: an impossible value upstream gives density zero,
 not an error

---
 src/network/importance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/importance.py b/src/network/importance.py
index 843f93a..90ca57a 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -86,6 +86,9 @@ class ImportanceNetwork(object):
                 rowid, self.cgpms[l], targets_all, sample, inputs)
             sample.update(sl)
             weight += wl
+            # Nothing can be sampled given an impossible event.
+            if weight == -float('inf'):
+                return sample, weight
         assert set(sample) == set.union(set(constraints), set(targets_all))
         return sample, weight
 
@@ -113,7 +116,7 @@ class ImportanceNetwork(object):
             targets=cgpm_targets,
             constraints=cgpm_constraints,
             inputs=cgpm_inputs
-            ) if cgpm_targets else {}
+            ) if cgpm_targets and weight > -float('inf') else {}
         return sample, weight
 
     def retrieve_required_inputs(self, targets, constraints):
-- 
2.43.0


From f61ae4b0962d2c4669e365636a571f6d2ca7923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 35/69] fix: mutual information marginalises constraints given
 the fixed ones

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index db93edd..836fbee 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -697,7 +697,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From 6fca6fadbeaf1feb4c8b7e54c53ac7888035cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 36/69] fix: parallel_map does not hang if a worker exits or
 its result cannot be sent

---
 src/utils/parallel_map.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..5327ee9 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,7 +15,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
 import struct
 import traceback
@@ -48,12 +47,12 @@ def parallel_map(f, l, parallelism=None):
             x = l[i]
             try:
                 ok, fx = True, f(x)
-            except Exception as e:
+            except BaseException:
                 ok, fx = False, traceback.format_exc()
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception:
                 outq_wr.send((i, False, traceback.format_exc()))
 
     def process_output(fl, ctr, output):
-- 
2.43.0


From 331eb93d76dd1804c2fb24ac7eb0593d82b5264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 37/69] fix: parallel_map waits for the workers it terminates

---
 src/utils/parallel_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index 5327ee9..f246a3a 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -105,11 +105,12 @@ def parallel_map(f, l, parallelism=None):
         for p in process:
             p.join()
 
-    except Exception as e:           # paranoia
+    except BaseException:            # paranoia
         # Terminate all subprocesses immediately and reraise.
         for p in process:
             if p.is_alive():
                 p.terminate()
+                p.join()
         raise
 
     finally:
-- 
2.43.0


From 38a3223ceb3202211fc2bcfb8f2127ab5744eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 38/69] fix: an empty selection of states is not all of them

---
 src/crosscat/engine.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 706374e..19f1a55 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -76,7 +76,7 @@ class Engine(object):
             views=None, progress=True, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition', self.states[s],
                 (N, S, kernels, rowids, cols, views, progress, checkpoint))
                 for s in statenos]
@@ -89,7 +89,7 @@ class Engine(object):
             cols=None, progress=None, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition_lovecat', self.states[s],
                 (N, S, kernels, rowids, cols, progress, checkpoint))
                 for s in statenos]
@@ -108,7 +108,7 @@ class Engine(object):
     def transition_foreign(self, N=None, S=None, cols=None, progress=True,
             statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition_foreign', self.states[s],
                 (N, S, cols, progress))
                 for s in statenos]
@@ -192,7 +192,7 @@ class Engine(object):
     def logpdf(self, rowid, targets, constraints=None, inputs=None,
             accuracy=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf', self.states[s],
                 (rowid, targets, constraints, inputs, accuracy))
             for s in statenos]
@@ -202,7 +202,7 @@ class Engine(object):
     def logpdf_bulk(self, rowids, targets_list, constraints_list=None,
             inputs_list=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list))
                 for s in statenos]
@@ -211,7 +211,7 @@ class Engine(object):
 
     def logpdf_score(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_score', self.states[s],
                 ())
                 for s in statenos]
@@ -220,7 +220,7 @@ class Engine(object):
 
     def logpdf_likelihood(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_likelihood', self.states[s],
                 ())
                 for s in statenos]
@@ -231,7 +231,7 @@ class Engine(object):
             accuracy=None, statenos=None, multiprocess=1):
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('simulate', self.states[s],
                 (rowid, targets, constraints, inputs, N, accuracy))
                 for s in statenos]
@@ -243,7 +243,7 @@ class Engine(object):
         """Returns list of simualate_bulk, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('simulate_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list, Ns))
                 for s in statenos]
@@ -255,7 +255,7 @@ class Engine(object):
         """Returns list of mutual information estimates, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('mutual_information', self.states[s],
                 (col0, col1, constraints, T, N, progress))
                 for s in statenos]
@@ -265,7 +265,7 @@ class Engine(object):
     def dependence_probability(self, col0, col1, statenos=None, multiprocess=1):
         """Compute dependence probabilities between col0 and col1."""
         # XXX Ignore multiprocess.
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         return [self.states[s].dependence_probability(col0, col1)
             for s in statenos]
 
@@ -273,7 +273,7 @@ class Engine(object):
             multiprocess=1):
         """Compute dependence probability between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('dependence_probability_pairwise', self.states[s],
                 (colnos,))
                 for s in statenos]
@@ -283,7 +283,7 @@ class Engine(object):
     def row_similarity(self, row0, row1, cols=None, statenos=None,
             multiprocess=1):
         """Compute similarities between row0 and row1."""
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         # XXX Ignore multiprocess.
         return [self.states[s].row_similarity(row0, row1, cols)
             for s in statenos]
@@ -291,7 +291,7 @@ class Engine(object):
     def row_similarity_pairwise(self, cols=None, statenos=None, multiprocess=1):
         """Compute row similarity between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('row_similarity_pairwise', self.states[s],
                 (cols,))
                 for s in statenos]
@@ -303,7 +303,7 @@ class Engine(object):
             statenos=None, multiprocess=1):
         """Compute relevance probability of query rows for target row."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('relevance_probability', self.states[s],
                 (rowid_target, rowid_query, col, hypotheticals))
                 for s in statenos]
@@ -313,7 +313,7 @@ class Engine(object):
     def alter(self, funcs, statenos=None, multiprocess=1):
         """Apply generic funcs on states in parallel."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [(funcs, self.states[s]) for s in statenos]
         states = mapper(_alter, args)
         for s, state in zip(statenos, states):
-- 
2.43.0


From 0dbcaf0f782174d7f85b0d1d0bf8bf3e0b87c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 39/69] fix: likelihood weights of an engine use the inputs as
 inputs

---
 src/crosscat/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 19f1a55..d57ba8b 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -362,10 +362,10 @@ class Engine(object):
             inputs=None, statenos=None, multiprocess=1):
         # Computes an importance sampling integral with likelihood weight.
         assert len(logpdfs) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         if constraints:
-            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
-                multiprocess=multiprocess)
+            weights = self.logpdf(rowid, constraints, inputs=inputs,
+                statenos=statenos, multiprocess=multiprocess)
             return gu.logmeanexp_weighted(logpdfs, weights)
         else:
             return gu.logmeanexp(logpdfs)
@@ -373,11 +373,11 @@ class Engine(object):
     def _likelihood_weighted_resample(self, samples, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
         assert len(samples) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-            self.logpdf(rowid, constraints, inputs,
+            self.logpdf(rowid, constraints, inputs=inputs,
                 statenos=statenos, multiprocess=multiprocess)
         n_model = np.bincount(gu.log_pflip(weights, size=N, rng=self.rng))
         indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]
-- 
2.43.0


From 9bbf00629328e18477702565c8ba9eb5a92f3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 40/69] fix: inference for zero iterations or seconds does
 nothing

---
 src/crosscat/state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 836fbee..7f295e3 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -902,14 +902,15 @@ class State(CGpm):
             self, kernels, N=None, S=None, progress=None, checkpoint=None):
 
         def _proportion_done(N, S, iters, start):
+            # A limit of zero is reached from the start.
             if S is None:
                 p_seconds = 0
             else:
-                p_seconds = (time.time() - start) / S
+                p_seconds = (time.time() - start) / S if S else 1
             if N is None:
                 p_iters = 0
             else:
-                p_iters = float(iters)/N
+                p_iters = float(iters)/N if N else 1
             return max(p_iters, p_seconds)
 
         if N is None and S is None:
-- 
2.43.0


From 4798a11f15a538fd65680757a671b09a909ecb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 41/69] fix: inference on no columns leaves all views alone

---
 src/crosscat/state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 7f295e3..fb94d17 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -801,7 +801,8 @@ class State(CGpm):
 
     def transition_view_alphas(self, views=None, cols=None):
         if views is None:
-            views = set(self.Zv(col) for col in cols) if cols else self.views
+            views = self.views if cols is None \
+                else set(self.Zv(col) for col in cols)
         for v in views:
             self.views[v].transition_crp_alpha()
         self._increment_iterations('view_alphas')
@@ -831,7 +832,8 @@ class State(CGpm):
         if self.n_rows() == 1:
             return
         if views is None:
-            views = set(self.Zv(col) for col in cols) if cols else self.views
+            views = self.views if cols is None \
+                else set(self.Zv(col) for col in cols)
         for v in views:
             self.views[v].transition_rows(rows=rows)
         self._increment_iterations('rows')
-- 
2.43.0


From c05d81f0a3c211c4234a72902df17999df18981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 42/69] fix: inference on given views survives a view losing
 its columns

---
 src/crosscat/state.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index fb94d17..2f8b3a7 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -758,19 +758,28 @@ class State(CGpm):
         if cols and any(c not in self.outputs for c in cols):
             raise ValueError('Only CrossCat columns may be transitioned.')
 
+        # Check views exist; they may still disappear during the transition.
+        if views is not None:
+            if any(v not in self.views for v in views):
+                raise ValueError('Only existing views may be transitioned.')
+        def remaining():
+            return views if views is None \
+                else [v for v in views if v in self.views]
+
         # Default order of crosscat kernels is important.
         _kernel_lookup = OrderedDict([
             ('alpha',
                 lambda : self.transition_crp_alpha()),
             ('view_alphas',
-                lambda : self.transition_view_alphas(views=views, cols=cols)),
+                lambda : self.transition_view_alphas(
+                    views=remaining(), cols=cols)),
             ('column_params',
                 lambda : self.transition_dim_params(cols=cols)),
             ('column_hypers',
                 lambda : self.transition_dim_hypers(cols=cols)),
             ('rows',
                 lambda : self.transition_view_rows(
-                    views=views, cols=cols, rows=rowids)),
+                    views=remaining(), cols=cols, rows=rowids)),
             ('columns' ,
                 lambda : self.transition_dims(cols=cols)),
         ])
-- 
2.43.0


From 380d66bb85272fd5390d73da95b9d44519242e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 43/69] fix: score of a factor analysis model visits the rows

---
 src/factor/factor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..eb4ba31 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,12 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
-            return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+            targets = {
+                i:v for i,v in zip(self.observables, x) if not np.isnan(v)
+            }
+            # A row with no observed cells has no density to contribute.
+            return self.logpdf(None, targets) if targets else 0
+        return sum(compute_logpdf(x) for x in self.data.itervalues())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From 1731dae441f7eae511a7c17a2eb11556fb6b5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 44/69] fix: lovecat.transition: allow the default of one step
 when neither N nor S is given

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..7b1a8ca 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From 2471c9144e76f7beaeddc2f70ed805b17da787a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 45/69] fix: lovecat: list the row partition in order of
 rowids, not of incorporation

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 7b1a8ca..1e344d8 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From 0c5f42633dfa09bebf4c629ff7b72b76e5cebaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 46/69] fix: lovecat: express column constraints in crosscat
 column indexes

---
 src/crosscat/lovecat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 1e344d8..37ae415 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -205,14 +205,18 @@ def _crosscat_X_L(state, M_c, X_D):
     col_ensure = dict()
     if state.Cd:
         col_ensure['dependent'] = {
-            str(column) : list(block)
+            str(state.outputs.index(column)) :
+                [state.outputs.index(c) for c in block]
             for block in state.Cd for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples([
+                (state.outputs.index(a), state.outputs.index(b))
+                for a, b in state.Ci
+            ]).iteritems()
         }
 
     return {
-- 
2.43.0


From a5635ffec38bf73bc2731e85acee9e30db8bd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 47/69] fix: loomcat: do not share a project between models
 created in the same second

---
 src/crosscat/loomcat.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..1b75265 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -17,6 +17,7 @@
 import csv
 import itertools
 import os
+import tempfile
 
 import loom.cleanse
 import loom.tasks
@@ -52,10 +53,15 @@ def _generate_loom_stattypes(state):
 
 def _generate_project_paths(name=None):
     """Creates a new project in the loom store."""
-    if name is None:
-        name = cu.timestamp()
     store = _retrieve_loom_store()
-    project_root = os.path.join(store, name)
+    if name is None:
+        # Projects which are created in the same second must be distinct.
+        if not os.path.exists(store):
+            os.makedirs(store)
+        project_root = tempfile.mkdtemp(
+            prefix='%s-' % (cu.timestamp(),), dir=store)
+    else:
+        project_root = os.path.join(store, name)
     # Create necessary subdirectories.
     paths = {
         'root'      : project_root,
-- 
2.43.0


From b0330f6ace1bb6256b67db2232accd681d5fb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 48/69] fix: loomcat.transition_engine: default to one pass,
 and accept states of different projects

---
 src/crosscat/loomcat.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 1b75265..421b27e 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -314,12 +314,13 @@ def transition_engine(
         N=N, S=S, kernels=kernels, seed=seed, checkpoint=checkpoint,
         progress=progress)
 
-    # All the states must have the same loom project path.
-    for state in engine.states:
-        assert state._loom_path == engine.states[0]._loom_path
+    if N is None:
+        N = 1
 
-    # Create Loom project if necessary.
-    if engine.states[0]._loom_path is None:
+    # Create Loom project if necessary; all the states must share it.
+    loom_path = engine.states[0]._loom_path
+    if loom_path is None \
+            or any(state._loom_path != loom_path for state in engine.states):
         loom_path = initialize(engine.states[0])
         for state in engine.states:
             state._loom_path = loom_path
-- 
2.43.0


From 6e5759885c6301f5f9697b9008d531a7f37a1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 49/69] fix: State: start a new loom project after the dataset
 or a type changes

---
 src/crosscat/state.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2f8b3a7..ed67e99 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -235,6 +235,8 @@ class State(CGpm):
         if fresh:
             self.views[v_add] = view
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
+        # The loom project no longer has the current dataset.
+        self._loom_path = None
         # Transition.
         self.transition_dims(cols=transition)
         self.transition_dim_hypers(cols=[col])
@@ -261,6 +263,8 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        # The loom project no longer has the current dataset.
+        self._loom_path = None
         # Update composite flag.
         self._update_is_composite()
         # Validate.
@@ -302,6 +306,8 @@ class State(CGpm):
             for c in self.outputs:
                 self.X[c].pop()
             raise
+        # The loom project no longer has the current dataset.
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -319,6 +325,8 @@ class State(CGpm):
         # Tell the views.
         for v in self.views:
             self.views[v].unincorporate(rowid)
+        # The loom project no longer has the current dataset.
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -344,6 +352,8 @@ class State(CGpm):
                 observation_v = {c: float('nan') for c in view_variables}
                 self.views[view_id].force_cell(rowid, observation_v)
             raise
+        # The loom project no longer has the current dataset.
+        self._loom_path = None
 
     # --------------------------------------------------------------------------
     # Schema updates.
@@ -353,6 +363,8 @@ class State(CGpm):
         if col not in self.outputs:
             raise ValueError('col does not exist: %s.' % (col,))
         self.view_for(col).update_cctype(col, cctype, distargs=distargs)
+        # The loom project no longer has the current statistical types.
+        self._loom_path = None
         self.transition_dim_grids(cols=[col])
         self.transition_dim_params(cols=[col])
         self.transition_dim_hypers(cols=[col])
-- 
2.43.0


From 03fe4b4566af639ba73d62f108547216026b9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 50/69] fix: MultivariateKde: spread categorical kernels over
 the declared levels, not the observed ones, and weigh exemplars in log space

---
 src/kde/mvkde.py | 74 ++++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 14de6dd..af491fe 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -18,7 +18,7 @@ from collections import OrderedDict
 
 import numpy as np
 
-from statsmodels.nonparametric import _kernel_base
+from scipy.stats import norm
 from statsmodels.nonparametric import kernel_density
 
 from cgpm.cgpm import CGpm
@@ -133,23 +133,16 @@ class MultivariateKde(CGpm):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
         if not constraints:
-            model = kernel_density.KDEMultivariate(
-                self._dataset(targets),
-                self._stattypes(targets),
-                bw=self._bw(targets),
-            )
-            pdf = model.pdf(targets.values())
+            targets_members = self._dataset(targets.keys())
+            log_weights = np.zeros(len(targets_members))
         else:
             full_members = self._dataset(targets.keys() + constraints.keys())
-            model = kernel_density.KDEMultivariateConditional(
-                full_members[:,:len(targets)],
-                full_members[:,len(targets):],
-                self._stattypes(targets),
-                self._stattypes(constraints),
-                bw=np.concatenate((self._bw(targets), self._bw(constraints))),
-            )
-            pdf = model.pdf(targets.values(), constraints.values())
-        return np.log(pdf)
+            targets_members = full_members[:,:len(targets)]
+            log_weights = self._log_weights(
+                full_members[:,len(targets):], constraints)
+        log_kernels = self._log_kernels(targets_members, targets)
+        return gu.logsumexp(log_weights + log_kernels) \
+            - gu.logsumexp(log_weights)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.N == 0:
@@ -166,19 +159,14 @@ class MultivariateKde(CGpm):
         constraints = self.populate_constraints(rowid, targets, constraints)
         if constraints:
             full_members = self._dataset(targets + constraints.keys())
-            weights = _kernel_base.gpke(
-                self._bw(constraints),
-                full_members[:,len(targets):],
-                constraints.values(),
-                self._stattypes(constraints),
-                tosum=False,
-            )
+            log_weights = self._log_weights(
+                full_members[:,len(targets):], constraints)
             targets_members = full_members[:,:len(targets)]
         else:
             targets_members = self._dataset(targets)
-            weights = [1] * len(targets_members)
-        assert len(weights) == len(targets_members)
-        index = gu.pflip(weights, size=N, rng=self.rng)
+            log_weights = [0] * len(targets_members)
+        assert len(log_weights) == len(targets_members)
+        index = gu.log_pflip(log_weights, size=N, rng=self.rng)
         if N is None:
             return self._simulate_member(targets_members[index], targets)
         return [self._simulate_member(targets_members[i], targets) for i in index]
@@ -201,6 +189,8 @@ class MultivariateKde(CGpm):
         idx = self.outputs.index(q)
         assert self.stattypes[idx] in ['categorical', 'nominal']
         c = self.levels[q]
+        if c == 1:
+            return 0
         def _compute_probabilities(s):
             return 1 - self.bw[idx] if s == Xi else self.bw[idx] / (c - 1)
         probs = map(_compute_probabilities, range(c))
@@ -230,16 +220,38 @@ class MultivariateKde(CGpm):
     def _dataset(self, outputs):
         indexes = [self.outputs.index(q) for q in outputs]
         X = np.asarray(self.data.values())[:,indexes]
-        return X[~np.any(np.isnan(X), axis=1)]
+        members = X[~np.any(np.isnan(X), axis=1)]
+        if len(members) == 0:
+            raise ValueError('No complete observations of: %s' % (outputs,))
+        return members
+
+    def _log_kernels(self, members, values):
+        """Return the log product kernel of `values` at each of `members`."""
+        log_kernels = np.zeros(len(members))
+        for i, (q, x) in enumerate(values.items()):
+            bw = self.bw[self.outputs.index(q)]
+            if q not in self.levels:
+                log_kernels += norm.logpdf(x, loc=members[:,i], scale=bw)
+            elif x not in range(self.levels[q]):
+                log_kernels += -float('inf')
+            elif self.levels[q] > 1:
+                # The kernel has mass on all levels, observed or not.
+                kernels = np.where(
+                    members[:,i] == x, 1 - bw, bw / (self.levels[q] - 1.))
+                with np.errstate(divide='ignore'):
+                    log_kernels += np.log(kernels)
+        return log_kernels
+
+    def _log_weights(self, members, constraints):
+        log_weights = self._log_kernels(members, constraints)
+        if np.all(np.isinf(log_weights)):
+            raise ValueError('Impossible constraints: %s' % (constraints,))
+        return log_weights
 
     def _default_bw(self, q):
         i = self.outputs.index(q)
         return 1 if self.stattypes[i] == 'numerical' else .1
 
-    def _bw(self, outputs):
-        indexes = [self.outputs.index(q) for q in outputs]
-        return np.asarray([self.bw[i] for i in indexes])
-
     def _stattypes(self, outputs):
         indexes = [self.outputs.index(q) for q in outputs]
         lookup = {
-- 
2.43.0


From 19cc7134dbbe8a530519d427604d400799dea481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 51/69] fix: MultivariateKde.logpdf_score: rows without
 observed cells contribute nothing

---
 src/kde/mvkde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index af491fe..00ff3ef 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -202,6 +202,8 @@ class MultivariateKde(CGpm):
             assert len(x) == len(self.outputs)
             targets = {self.outputs[i]: v
                 for i, v in enumerate(x) if not np.isnan(v)}
+            if not targets:
+                return 0
             return self.logpdf(rowid, targets)
         return sum(compute_logpdf(rowid, x) for rowid, x in self.data.items())
 
-- 
2.43.0


From 4d0b7e3cff7f93ddfa6f89fc15df1ca6666b30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 52/69] fix: MultivariateKnn: break ties only among the
 farthest neighbors

---
 src/knn/mvknn.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..9263f60 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -193,13 +193,15 @@ class MultivariateKnn(CGpm):
         constraints_code = self._dummy_code(
             [constraints.values()], constraints.keys())
         dist, neighbors = KDTree(D_ev_code).query(constraints_code, k=len(D))
-        # Check for equidistant neighbors and possibly extend the search.
-        valid = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K-1]]
-        if self.K < len(valid):
-            neighbors = self.rng.choice(neighbors[0][valid],
-                replace=False, size=self.K)
-        else:
-            neighbors = neighbors[0][:self.K]
+        # Keep all strictly nearer neighbors, and break ties among those at the
+        # distance of the K-th neighbor at random.
+        radius = dist[0][self.K-1]
+        nearer = neighbors[0][dist[0] < radius]
+        ties = neighbors[0][dist[0] == radius]
+        if self.K < len(nearer) + len(ties):
+            ties = self.rng.choice(
+                ties, replace=False, size=self.K-len(nearer))
+        neighbors = np.concatenate((nearer, ties))
         # For each neighbor, find its nearest M on the full lookup set.
         _, ex = KDTree(D_code).query(D_code[neighbors], k=min(self.M, self.K))
         # Return the dataset and the list of neighborhoods.
-- 
2.43.0


From 77ad40153ab8fe9a57a27d3b1005ec0668a8bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 53/69] fix: MultivariateKnn: use the M nearest neighbors in a
 locality also if M > K

---
 src/knn/mvknn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 9263f60..9fa4ab2 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -203,7 +203,7 @@ class MultivariateKnn(CGpm):
                 ties, replace=False, size=self.K-len(nearer))
         neighbors = np.concatenate((nearer, ties))
         # For each neighbor, find its nearest M on the full lookup set.
-        _, ex = KDTree(D_code).query(D_code[neighbors], k=min(self.M, self.K))
+        _, ex = KDTree(D_code).query(D_code[neighbors], k=min(self.M, len(D)))
         # Return the dataset and the list of neighborhoods.
         return D[:,:len(targets)], ex
 
-- 
2.43.0


From ff2d07021d142b77b2cbce5fe2bb587c94ebe5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 54/69] fix: MultivariateKnn: give values outside the
 categories zero density

---
 src/knn/mvknn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 9fa4ab2..f3e31eb 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -235,7 +235,11 @@ class MultivariateKnn(CGpm):
         counts = np.bincount(locality.astype(int), minlength=self.levels[q])
         p = counts / np.sum(counts, dtype=float)
         simulate = lambda N: self.rng.choice(self.levels[q], p=p, size=N)
-        logpdf = lambda x: np.log(p[x])
+        def logpdf(x):
+            if x not in range(self.levels[q]):
+                return -float('inf')
+            with np.errstate(divide='ignore'):
+                return np.log(p[int(x)])
         return LocalGpm(simulate, logpdf)
 
     def _dummy_code(self, D, variables):
-- 
2.43.0


From 7927ee440c406d669f7ed1a09c2d23f7761fe3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 55/69] fix: draw the directed toy models from the given source
 of randomness

---
 src/uncorrelated/diamond.py  | 5 +++--
 src/uncorrelated/parabola.py | 5 +++--
 src/uncorrelated/sin.py      | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..df8caa5 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,10 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..25410c6 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,10 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..420e6b4 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,12 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi, rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 3490ac8b70fad68d9d6857d8e699bfbbc1909af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 56/69] fix: pass constraints, inputs and sample count on in
 the directed toy models

---
 src/uncorrelated/directed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..d61dbbf 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -41,6 +41,7 @@ class DirectedXyGpm(CGpm):
             noise = .1
         self.rng = rng
         self.outputs = outputs
+        self.inputs = []
         self.noise = noise
         self.acc = acc
         # Override the network in subclass.
@@ -49,9 +50,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 1a98fff410d42818d253afd12d9cc02afb2200ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 57/69] fix: marginal densities of the undirected toy models

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..68ab73e 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -41,7 +41,7 @@ class UnDirectedXyGpm(CGpm):
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From 2d696544bf7d1a934a6d36c80a4892cf5a678c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 58/69] fix: conditional density of Dots is that of the target

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From 6449b78dba589d1d58ea1292bb835bc1e560c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 59/69] fix: joint density of PieceWise uses the value of x

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 0695f6eb2443a242494fb58983c989799e2b2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 60/69] fix: PieceWise gives no density to z outside {0,1}

---
 src/dummy/piecewise.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 5e00778..53c9c06 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -96,15 +96,13 @@ class PieceWise(CGpm):
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
                 z, x = targets[self.outputs[1]], targets[self.outputs[0]]
-                # XXX Check if z in [0, 1]
-                logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
+                logp_z = self._logpdf_z(z)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
                 logp = logp_x + logp_z
             # Case 1.2: z in the targets only.
             elif self.outputs[1] in targets:
                 z = targets[self.outputs[1]]
-                logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
-                logp = logp_z
+                logp = self._logpdf_z(z)
             # Case 1.2: x in the targets only.
             elif self.outputs[0] in targets:
                 x = targets[self.outputs[0]]
@@ -165,6 +163,11 @@ class PieceWise(CGpm):
                 % (targets, constraints, inputs))
         return logp
 
+    def _logpdf_z(self, z):
+        if z not in [0, 1]:
+            return -float('inf')
+        return np.log(self.flip) if z == 0 else np.log(1-self.flip)
+
     def transition(self, N=None, S=None):
         time.sleep(.1)
 
-- 
2.43.0


From 1a6eac332f16ac2aa6fd8805543a18ed97bafee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 61/69] fix: normalize the distributions of FourWay

---
 src/dummy/fourway.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..2ad22a6 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -35,6 +35,9 @@ class FourWay(CGpm):
             [.10, .15, .65, .10],
             [.10, .05, .10, .75],
         ]
+        # Each row is the distribution of the output in one quadrant.
+        self.probabilities = [
+            [p / sum(row) for p in row] for row in self.probabilities]
         assert len(outputs) == 1
         assert len(inputs) == 2
         self.outputs = list(outputs)
-- 
2.43.0


From 34656f26ad1305115e12eede950be448bc0104fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 62/69] fix: FourWay and TwoWay accept integral values stored
 as floats

---
 src/dummy/fourway.py | 4 ++--
 src/dummy/twoway.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index 2ad22a6..e126a8a 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -60,13 +60,13 @@ class FourWay(CGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         x = targets[self.outputs[0]]
-        if not (0 <= x <= 3):
+        if x not in [0, 1, 2, 3]:
             return -float('inf')
         regime = self.lookup_quadrant(
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        return np.log(self.probabilities[regime][int(x)])
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
diff --git a/src/dummy/twoway.py b/src/dummy/twoway.py
index 06b541c..592a384 100644
--- a/src/dummy/twoway.py
+++ b/src/dummy/twoway.py
@@ -49,7 +49,7 @@ class TwoWay(CGpm):
         y = inputs[self.inputs[0]]
         assert int(y) == float(y)
         assert y in [0, 1]
-        x = gu.pflip(self.probabilities[y], rng=self.rng)
+        x = gu.pflip(self.probabilities[int(y)], rng=self.rng)
         return {self.outputs[0]: x}
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
@@ -57,7 +57,9 @@ class TwoWay(CGpm):
         assert int(y) == float(y)
         assert y in [0, 1]
         x = targets[self.outputs[0]]
-        return np.log(self.probabilities[y][x]) if x in [0,1] else -float('inf')
+        if x not in [0, 1]:
+            return -float('inf')
+        return np.log(self.probabilities[int(y)][int(x)])
 
     def transition(self, N=None):
         time.sleep(.1)
-- 
2.43.0


From e88b3de795920237b4b2a3c67c11f59f8e850962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 63/69] fix: OrdinaryLeastSquares.simulate returns the
 requested number of samples

---
 src/regressions/ols.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7b5b664..fd95964 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -92,6 +92,7 @@ class OrdinaryLeastSquares(CGpm):
         mean = self.regressor.predict([yt])[0]
         return logpdf_gaussian(xt, mean, self.noise)
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         assert targets == self.outputs
         assert not constraints
@@ -99,10 +100,9 @@ class OrdinaryLeastSquares(CGpm):
             return {self.outputs[0]: self.data.x[rowid]}
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
-        x = self.rng.normal(mean, self.noise, size=N)
+        x = self.rng.normal(mean, self.noise)
         # XXX Temporarily disable noise in the OLS sample.
-        sample = {self.outputs[0]: mean}
-        return sample if not N else [sample] * N
+        return {self.outputs[0]: mean}
 
     def logpdf_score(self):
         pass
-- 
2.43.0


From 94b49850699119ae0d7393adca24b51c13ee25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 64/69] fix: RandomForest.unincorporate updates the category
 counts

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index df54c7f..e97aeae 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,12 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 3362b556886cbc22b1c8d00d489deb3174f3c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 65/69] fix: BareBonesCGpm simulates only the targets

---
 src/dummy/barebones.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dummy/barebones.py b/src/dummy/barebones.py
index 1b5b4eb..11eaaac 100644
--- a/src/dummy/barebones.py
+++ b/src/dummy/barebones.py
@@ -34,8 +34,9 @@ class BareBonesCGpm(CGpm):
         return 0
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
-        result = {i:1 for i in self.outputs}
-        return result if N is None else [result] * N
+        if N is None:
+            return {i:1 for i in targets}
+        return [{i:1 for i in targets} for _i in xrange(N)]
 
     def transition(self, **kwargs):
         return
-- 
2.43.0


From 73066427a823d1d1244fbae7e7e00530c6308623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 66/69] fix: mh_sample proposes symmetrically within the domain

---
 src/utils/sampling.py | 47 ++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..fd90251 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -76,33 +76,9 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
-    if D[0] == 0 and D[1] == 1:
-        def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
-    elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
-    else:
-        def jumpfun(x, jstd):
-            MAX_TRIALS = 1000
-            for _ in xrange(MAX_TRIALS):
-                x_prime = rng.normal(x, jstd)
-                if D[0] < x_prime < D[1]:
-                    return x_prime
-            raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
-        def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+    # Reflecting the normal jump at the bounds of the domain keeps the proposal
+    # symmetric, so that no correction is needed.
+    jumpfun = lambda x, jstd: _reflect(rng.normal(x, jstd), D)
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,9 +87,6 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
-
         if log(rng.rand()) < logp_prime - logp:
             x = x_prime
             logp = logp_prime
@@ -143,6 +116,20 @@ def mh_sample(
     else:
         return samples
 
+def _reflect(x, D):
+    """Fold the real line onto the interval D, by reflection at its bounds."""
+    low, high = D
+    if low != -float('inf') and high != float('inf'):
+        width = float(high - low)
+        x = fabs(x - low) % (2 * width)
+        return low + (x if x <= width else 2 * width - x)
+    elif low != -float('inf'):
+        return low + fabs(x - low)
+    elif high != float('inf'):
+        return high - fabs(high - x)
+    else:
+        return x
+
 def slice_sample(
         proposal_fun, log_pdf_fun, D,
         num_samples=1, burn=1, lag=1, w=1.0, rng=None):
-- 
2.43.0


From 82ca63cce8ed7cd3b59fb85d2beed4df78a62b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 67/69] fix: mh_sample tunes by the acceptance rate of the
 whole window

---
 src/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index fd90251..ed7e600 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -91,7 +91,7 @@ def mh_sample(
             x = x_prime
             logp = logp_prime
             accepted += 1.0
-            acceptance_rate = accepted/aiters
+        acceptance_rate = accepted/aiters
 
         if iters > burn and iters % lag == 0:
             num_collected += 1
-- 
2.43.0


From 10d9e2b62f3a1e9848c8804a042be2470bb83899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 68/69] fix: slice_sample discards the requested number of
 samples

---
 src/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index ed7e600..8900243 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -186,7 +186,7 @@ def slice_sample(
                 else:
                     a = x_prime;
 
-        if num_iters >= burn and num_iters%lag == 0:
+        if num_iters > burn and num_iters%lag == 0:
             samples.append(x)
 
     if num_samples == 1:
-- 
2.43.0


From 7f17784f91d2a3626e1466831fff23d2925dd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 69/69] fix: propose fresh parameters to each row of a view

---
 src/mixtures/view.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 68f1314..634b34b 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -414,6 +414,10 @@ class View(CGpm):
     # Internal row transition.
 
     def _gibbs_transition_row(self, rowid):
+        # Propose fresh parameters for a new cluster.
+        for dim in self.dims.itervalues():
+            if not dim.is_collapsed():
+                dim.aux_model = dim.create_aux_model()
         # Probability of row crp assignment to each cluster.
         K = self.crp.clusters[0].gibbs_tables(rowid)
         logp_crp = self.crp.clusters[0].gibbs_logps(rowid)
-- 
2.43.0

