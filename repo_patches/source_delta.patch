From 7ebd026c4cabe1a2bc56d059a73615027141f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 001/100] fix: strip only the "const__" prefix from the names
 of constant result layers

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..edd87f6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From 4b6f773ff4791b717c568084b33cac692f7258cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 002/100] fix: release waiting workers if a writer process
 stops (processing hung forever after a write error)

---
 rt1/_rtprocess_writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index edd87f6..7f2ffa9 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -451,12 +451,18 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
                 self.write_lock.release()
 
+        # make sure that no worker keeps on waiting for a stopped writer
+        self.should_wait.set()
+
     def _worker_process(self, *args):
         self.should_wait.wait()
 
+        if self._stop.is_set():
+            # processing has been stopped... don't process any remaining arguments
+            return
+
         try:
             if self.reader_func is not None:
                 # use provided reader-func...
-- 
2.43.0


From 63742bce86000740d3b435b181abe10195af37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 003/100] fix: avoid a division by zero in the progress thread
 if the first result arrives while it is reading the counters

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 7f2ffa9..88bc79d 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -165,7 +165,7 @@ class RT1_processor(object):
         p_meancnt = self.p_meancnt.value + qsize
         self.lock.release()
 
-        if self.p_meancnt.value == 0:
+        if p_meancnt == 0:
             title = f"{'estimating time ...':<28}"
             p_max = self.p_max.value if self.p_max.value else p_totcnt + 1
             meantime = 0
-- 
2.43.0


From 06a942658696687d9baa6ded9a03fa5e6b6a7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 004/100] fix: chunked reading of results (wrong rows, missing
 names or errors if the chunks did not evenly divide the number of IDs, and
 for lists of IDs)

---
 rt1/rtresults.py | 134 +++++++++++++++++------------------------------
 1 file changed, 47 insertions(+), 87 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..172eaf6 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -9,6 +9,7 @@ from pathlib import Path
 from ast import literal_eval
 import gc
 
+import numpy as np
 import pandas as pd
 from numpy.random import choice
 
@@ -686,28 +687,6 @@ class HDFaccessor(object):
         for i in range(0, len(lst), n):
             yield lst[i : i + n]
 
-    def _get_vals(self, key, chunksize, start=None, **kwargs):
-        # TODO
-        idxlevels = self.store.get_storer(key).levels
-        if idxlevels == 1:
-            idxname = "index"
-        else:
-            idxname = idxlevels[0]
-
-        assert self.IDs is not None, "no IDs found in HDF-store"
-        if start:
-            assert start < len(self.IDs), (
-                f"start={start} is bigger than the number"
-                + f" of IDs ({len(self.IDs)})"
-            )
-        use_ids = self._chunks(self.IDs.index[slice(start, None)], chunksize)
-        for i, ids in enumerate(use_ids):
-            indexes = self.store.select_as_coordinates(
-                key=key, where=f"{idxname} in ids"
-            )
-            data = self.store.get_storer(key).read(where=indexes, **kwargs)
-            yield data
-
     def _get_vals_with_IDs(self, key, use_ids, chunksize=1, **kwargs):
         # TODO
         idxlevels = self.store.get_storer(key).levels
@@ -716,7 +695,6 @@ class HDFaccessor(object):
         else:
             idxname = idxlevels[0]
 
-        assert self.IDs is not None, "no IDs found in HDF-store"
         use_ids = self._chunks(use_ids, chunksize)
 
         for i, ids in enumerate(use_ids):
@@ -824,72 +802,60 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
-
         assert (
             key in self.store
         ), f"invalid key provided, use one of {self.store.keys()}"
+        assert self.IDs is not None, "no IDs found in HDF-store"
 
-        if read_chunksize is None:
-            s = self.store.get_storer(key)
+        if isinstance(nids, (int, np.integer)):
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            use_ids = self.IDs.index[slice(start, None)]
+            nids = min(len(self.IDs), nids)
+        else:
+            # use the provided IDs (e.g. either names or the associated numbers)
+            use_ids = [nids] if isinstance(nids, str) else nids
+            use_ids = [
+                self._ID_to_IDnum(i) if isinstance(i, str) else i for i in use_ids
+            ]
+            nids = len(use_ids)
 
-            if isinstance(nids, int):
-                if s.is_multi_index:
-                    read_chunksize = min(10, nids)
-                else:
-                    read_chunksize = nids
-            elif isinstance(nids, str):
-                read_chunksize = 1
+        if read_chunksize is None:
+            if self.store.get_storer(key).is_multi_index:
+                read_chunksize = min(10, nids)
             else:
-                read_chunksize = len(nids)
+                read_chunksize = nids
+
+        nread = 0
+        for ids in self._chunks(use_ids, nids):
+            ret = []
+            for d in self._get_vals_with_IDs(
+                key=key, chunksize=read_chunksize, use_ids=ids, **kwargs
+            ):
+                ret.append(d)
+
+                if print_progress:
+                    nread = min(nread + read_chunksize, len(use_ids))
+                    print("reading", nread)
+
+            data = pd.concat(ret)
+            if self.set_ID is True:
+                data = self._set_ID_names(data)
+            yield data
 
-        if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
-            nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
+    def _set_ID_names(self, data):
+        # replace the numeric IDs of the first index-level with the ID-names
+        if isinstance(data.index, pd.MultiIndex):
+            data.index = data.index.set_levels(
+                self.IDs.loc[data.index.levels[0]].ID, level=0
             )
         else:
-            use_ids = nids
-            nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
-
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
-
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
-
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
-                else:
-                    ret = []
-
-            if print_progress:
-                print("reading", (i + 1) * read_chunksize)
-
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+            data["ID"] = self.IDs.loc[data.index]
+            data = data.set_index("ID")
+        return data
 
 
 class _data_container(object):
@@ -920,13 +886,7 @@ class _subselector(object):
         ret = self._parent().store.select(self._key, **kwargs)
 
         if self._parent().set_ID is True:
-            if isinstance(ret.index, pd.MultiIndex):
-                ret.index = ret.index.set_levels(
-                    self._parent().IDs.loc[ret.index.levels[0]].ID, level=0
-                )
-            else:
-                ret["ID"] = self._parent().IDs.loc[ret.index]
-                ret = ret.set_index("ID")
+            ret = self._parent()._set_ID_names(ret)
 
         return ret
 
-- 
2.43.0


From e3f37f1d02777948ec45a5b5d8a5be8d7d959be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 005/100] fix: RT1_processor.get_data() could not read constant
 layers

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 88bc79d..31b5b78 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -789,6 +789,6 @@ class RT1_processor(object):
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
 
-            usekey = f"{config}/{key}"
+            usekey = key if config is None else f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0


From 729102194ff6f775ab47fa298e471ae8edeed354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 006/100] fix: replacing variables of a defdict and converting
 defdicts from/to dicts (or DataFrames)

---
 rt1/_containers.py | 58 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..12215cb 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -1,5 +1,7 @@
 import copy
 
+import pandas as pd
+
 
 class _var_container:
     def __init__(self):
@@ -24,12 +26,10 @@ class _RT1_defdict:
         return getattr(self.var, key)
 
     def __setattr__(self, key, val):
-        if not key.startswith("_") and key not in self._variables:
-            # set the value of the corresponding property on item assignment
-            if isinstance(val, dict):
-                self.add_variable(key, **val)
-            elif isinstance(val, list):
-                self.add_variable(key, *val)
+        if not key.startswith("_"):
+            # add (or replace) the corresponding variable
+            if isinstance(val, (dict, list)):
+                self._set_variable(key, val)
             else:
                 raise AttributeError(
                     "RT1 defdicts only support setting new variables"
@@ -160,13 +160,37 @@ class _RT1_defdict:
 
         defdict = cls()
         for key, val in d.items():
-            defdict.add_variable(key)
-            if isinstance(val, list):
-                defdict[key]._from_list(copy.deepcopy(val) if copy_vals else val)
-            elif isinstance(val, dict):
-                defdict[key]._from_dict(copy.deepcopy(val) if copy_vals else val)
+            defdict._set_variable(key, copy.deepcopy(val) if copy_vals else val)
         return defdict
 
+    def _set_variable(self, name, val):
+        """
+        Add (or replace) a variable based on a list or a dict of its properties.
+
+        Parameters
+        ----------
+        name : str
+            The name of the variable.
+        val : list, dict or pandas.Series
+            The properties (see `_RT1_defdict.from_dict()`)
+        """
+        if isinstance(val, pd.Series):
+            # (a column of a DataFrame) indexed by number or by name
+            if pd.api.types.is_integer_dtype(val.index):
+                val = val.to_list()
+            else:
+                val = val.to_dict()
+        if isinstance(val, list):
+            # parse the list first to avoid changing the defdict if it is not valid
+            var = _RT1_variable()
+            var._from_list(val)
+            val = var._to_dict()
+        elif not isinstance(val, dict):
+            raise TypeError(
+                f"The definition of '{name}' must be a list or a dict, not: {val}"
+            )
+        self.add_variable(name, **val)
+
     def to_dict(self, props="list"):
         """
         Convert the RT1-defdict to an ordinary dict
@@ -386,10 +410,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
-- 
2.43.0


From 29e650271df7d7506fb2d11ffdec30e8f3969f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 007/100] fix: linear combinations of volume-scattering
 functions could not be used with interaction-contributions

---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..3d8653f 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From 8242e16d2ffba2f801c82a9a6b29e8fbe75a98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 008/100] fix: evaluate scattering functions whose t-parameter
 is an expression

---
 rt1/surface.py | 4 ++++
 rt1/volume.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..ac16095 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -859,6 +859,10 @@ class HG_nadirnorm(Surface):
 
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # use the symbolic representation if t is a function of symbols
+            func = self._lambda_func(*kwargs.keys())
+            return func(theta_0, theta_ex, phi_0, phi_ex, **kwargs)
         else:
             t = self.t
 
diff --git a/rt1/volume.py b/rt1/volume.py
index 3d8653f..2a151d9 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -717,6 +717,10 @@ class HenyeyGreenstein(Volume):
         """direct numeric version of _func"""
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # use the symbolic representation if t is a function of symbols
+            func = self._lambda_func(*kwargs.keys())
+            return func(theta_0, theta_ex, phi_0, phi_ex, **kwargs)
         else:
             t = self.t
         x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, self.a)
-- 
2.43.0


From 8e2831e132414ba5ddbbd97fffe5f65bbe3b57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 009/100] fix: jacobian of the residuals (weights, functional
 parameter definitions, non-consecutive groups)

---
 rt1/rtfits.py | 131 ++++++++++++++++++--------------------------------
 1 file changed, 47 insertions(+), 84 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..d251049 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1833,117 +1833,80 @@ class Fits(Scatter):
         if order is None:
             order = self._order
 
+        # assign the values to the corresponding observations
+        res_dict = self._assignvals(res_dict, interp_vals)
         R = self._set_calc_values(
             R=R,
             res_dict=res_dict,
             fixed_dict=fixed_dict,
             interp_vals=interp_vals,
-            assign=True,
+            assign=False,
         )
 
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-        # remove the symbols that are intended to be fitted (that are also
-        # in param_dyn_dict) and replace them by 'omega', 'tau' and 'NormBRDF'
-        # so that calling R.jacobian will calculate the "outer" derivative
-        neworder = [o for o in order]
-        if len(self._tau_symb) != 0:
-            for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "tau"
-        if len(self._omega_symb) != 0:
-            for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "omega"
-        if len(self._N_symb) != 0:
-            for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "NormBRDF"
-
-        # calculate the jacobian based on neworder
-        # (evaluating only "outer" derivatives with respect to omega,
-        # tau and NormBRDF)
-        jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
-        # self.jacshape = jac[0].shape
+        # the "outer" derivatives with respect to 'omega', 'tau' and 'NormBRDF'
+        # and the "inner" derivatives of the provided functions are required
+        inner_funcs = {
+            "tau": (self._tau_symb, self._tau_diff_func),
+            "omega": (self._omega_symb, self._omega_diff_func),
+            "NormBRDF": (self._N_symb, self._N_diff_func),
+        }
+
+        # identify all contributions to the derivative of each parameter, e.g.
+        # [(name of outer derivative, inner derivative (or None)), ...]
+        contributions = {}
+        for key in order:
+            contributions[key] = [
+                (prop, diff_func[key], symbs)
+                for prop, (symbs, diff_func) in inner_funcs.items()
+                if key in symbs
+            ]
+            if len(contributions[key]) == 0 or key not in self._get_excludesymbs:
+                contributions[key] += [(key, None, None)]
+
+        outer_keys = list(
+            dict.fromkeys(name for val in contributions.values() for name, *_ in val)
+        )
+        outer = dict(
+            zip(
+                outer_keys,
+                R.jacobian(sig0=self.sig0, dB=self.dB, param_list=outer_keys),
+            )
+        )
+
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
         # (this is needed to avoid memory overflows for very large jacobians)
-        jac_size = jac[0].size
         newjacdict = {}
-        for i, key in enumerate(order):
+        for key in order:
+            # evaluate the total derivative of the residuals (chain-rule)
+            # i.e.: df/dx = df/dtau * dtau/dx + ... = df/dtau * d_inner + ...
+            data = np.zeros(self.mask.shape, dtype=float)
+            for name, diff_func, symbs in contributions[key]:
+                if diff_func is None:
+                    data = data + outer[name]
+                else:
+                    d_inner = diff_func(**{symb: res_dict[symb] for symb in symbs})
+                    data = data + outer[name] * d_inner
+            data = np.ravel(data * self.data_weights)
+
             uniques = pd.unique(param_dyn_dict[key])
             # provide unique values based on original occurence
             if len(uniques) == 1:
-                # np.array([np.concatenate(jac[i], axis=0)])
-                newjacdict[key] = np.expand_dims(
-                    np.fromiter(chain(*jac[i]), dtype=float, count=jac_size), 0
-                )
+                newjacdict[key] = np.expand_dims(data, 0)
             else:
                 # if too many unique values occur, use scipy sparse matrix
                 # to avoid memory-overflow due to the large number of zeroes...
                 # (this will reduce speed since scipy.sparse does not fully
                 # supprot BLAS and so no proper parallelization is performed)
-                # data = np.concatenate(jac[i])
-                data = np.fromiter(chain(*jac[i]), dtype=float, count=jac_size)
                 row_ind, col_ind = self._jac_assign_rule[key]
                 # generate a sparse matrix
                 m = csr_matrix(
-                    (data, (row_ind, col_ind)),
+                    (data[col_ind], (row_ind, col_ind)),
                     shape=(max(row_ind) + 1, max(col_ind) + 1),
                 )
                 newjacdict[key] = m
 
-        # evaluate jacobians of the functional representations of tau
-        # and add them to newjacdict
-        for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-            # generate a function that evaluates the 'inner' derivative, i.e.:
-            # df/dx = df/dtau * dtau/dx = df/dtau * d_inner
-            # evaluate the inner derivative
-            df_dx = self._tau_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._tau_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                # flatten the array (except if it is a scalar)
-                # happens for example when   f = 5*x   ->   df/dx = 5
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                # calculate "outer" * "inner" derivative for sparse matrices
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for omega
-        for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._omega_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._omega_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for NormBRDF
-        for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._N_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._N_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
         if hasattr(self, "intermediate_results"):
             self.intermediate_results["jacobian"] += [newjacdict]
 
-- 
2.43.0


From c9c46340cc3926b4c95d943ef6b8d9b5281c92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 010/100] fix: update the interaction-contribution if the
 incidence-angles are changed

---
 rt1/rt1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..47cf070 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -393,6 +393,9 @@ class RT1(object):
         if np.isscalar(t_0):
             t_0 = np.array([t_0])
         self.__t_0 = t_0
+        # make sure that pre-evaluated powers of the cosines are updated
+        RT1._mu_0_x.fget.cache_clear()
+        RT1._mu_ex_x.fget.cache_clear()
 
     t_0 = property(_get_t_0, _set_t_0)
 
@@ -423,6 +426,7 @@ class RT1(object):
             if np.isscalar(t_ex):
                 t_ex = np.array([t_ex])
             self.__t_ex = t_ex
+            RT1._mu_ex_x.fget.cache_clear()
 
     t_ex = property(_get_t_ex, _set_t_ex)
 
-- 
2.43.0


From bc7fa5ab0e3938412659eea13aff98f4bf3ece2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 011/100] fix: names of parameters could override names used in
 the rt1 modules

---
 rt1/rt1.py    | 10 +++++++---
 rt1/rtfits.py |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 47cf070..d9231e3 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -320,9 +320,13 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
+            # (don't use sp.var() to avoid overriding names in the global namespace)
+            variables = tuple(
+                map(
+                    sp.Symbol,
+                    ("theta_0", "phi_0", "theta_ex", "phi_ex")
+                    + tuple(map(str, self.param_dict.keys())),
+                )
             )
 
             # use symengine's Lambdify if symengine has been used within
diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d251049..01699ef 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1060,7 +1060,7 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             # if parameter is intended to be fitted, assign a sympy-symbol
             if val[0] is True:
-                setdict[key] = sp.var(key)
+                setdict[key] = sp.Symbol(key)
 
             elif val[0] is False:
                 # treat parameters that are intended to be constants
@@ -1069,7 +1069,7 @@ class Fits(Scatter):
                     setdict[key] = val[1]
                 else:
                     # if value is provided as array, add it to fixed_dict
-                    setdict[key] = sp.var(key)
+                    setdict[key] = sp.Symbol(key)
         return setdict
 
     @property
-- 
2.43.0


From 53c67b94755e3c7960242eb48e33886fe0c56218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 012/100] fix: parameters of the members of linear combinations
 in set_V_SRF

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 01699ef..daf6037 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2185,7 +2185,9 @@ class Fits(Scatter):
                 for val, initdict in props[f"{prefix}choices"]:
                     useval = checkval(val, val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    member = self._init_V_SRF(initdict, setdict)
+                    free_symbols.update(member.free_symbols)
+                    choices.append([useval, member])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From 0445e9747d7d6934db14d167e82a7b1e943b8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 013/100] fix: integer frequencies larger than the number of
 available dates

---
 rt1/rtfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index daf6037..c5dbc01 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -624,6 +624,8 @@ class Fits(Scatter):
                         # find the number of groups required to split the
                         # dataset into measurement-bins of length "f"
                         n_dat = self.dataset.index.nunique()
+                        # (use a single group if there are less than f indexes)
+                        f = max(min(f, n_dat), 1)
                         ngrps = n_dat // f
                         rest = n_dat % f
                         res = [0 for i in range(ngrps)]
-- 
2.43.0


From 3f44387bcfc0f71f73697ecab714c7366e90cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 014/100] fix: distinct manual groups and distinct combinations
 of groups could be merged

---
 rt1/rtfits.py | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index c5dbc01..b353cd4 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -666,21 +666,17 @@ class Fits(Scatter):
 
             manual_dyn_df = self._manual_dyn_df
             if manual_dyn_df is not None:
-                for key, val in manual_dyn_df.astype(str).items():
-                    dd1 = np.char.zfill(
-                        np.array(param_dyn_dict[key], dtype="str"),
-                        len(
-                            max(
-                                np.array(param_dyn_dict[key], dtype="str"),
-                                key=len,
-                            )
-                        ),
-                    )
-                    dd2 = val.str.zfill(len(max(val, key=len)))
-                    # generate a combined (unique) integer
+                for key, val in manual_dyn_df.items():
+                    # assign a unique number to each distinct combination of
+                    # time-group and manually provided value
+                    group_ids = dict()
                     param_dyn_dict[key] = np.array(
-                        np.char.add(dd1, dd2), dtype=float
-                    ).astype(int)
+                        [
+                            group_ids.setdefault(i, len(group_ids))
+                            for i in zip(param_dyn_dict[key], pd.factorize(val)[0])
+                        ],
+                        dtype=int,
+                    )
             return param_dyn_dict
 
     @property
@@ -720,20 +716,16 @@ class Fits(Scatter):
         dynamics of the parameters
         """
 
-        # find the max. length of the parameters
-        maxdict = {key: len(str(max(val))) for key, val in self.param_dyn_dict.items()}
-        # find the max. length of the parameters
-
-        def doit(x, N):
-            return str(x).zfill(N)
-
-        conclist = list()
-        for i, [key, val] in enumerate(self.param_dyn_dict.items()):
-            if i == 0:
-                conclist = list(map(partial(doit, N=maxdict[key]), val))
-            else:
-                conclist = map(add, conclist, map(partial(doit, N=maxdict[key]), val))
-        return np.array(list(map(int, conclist)))
+        # assign a unique number to each distinct combination of the groups
+        # (in order of first appearance)
+        group_ids = dict()
+        return np.array(
+            [
+                group_ids.setdefault(i, len(group_ids))
+                for i in zip(*self.param_dyn_dict.values())
+            ],
+            dtype=int,
+        )
 
     @property
     @lru_cache()
-- 
2.43.0


From 6c273f0a708c7e023236678087f936fd7e015ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 015/100] fix: start-values provided as "auxiliary" data for
 variability "index" with different numbers of observations

---
 rt1/rtfits.py | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b353cd4..b0735de 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -34,7 +34,7 @@ from ._containers import _RT1_defdict
 import copy
 from itertools import repeat, count, chain, groupby
 from functools import lru_cache, partial, wraps, update_wrapper
-from operator import itemgetter, add, methodcaller
+from operator import itemgetter, methodcaller
 from datetime import datetime
 from pathlib import Path
 
@@ -1113,36 +1113,13 @@ class Fits(Scatter):
                         f'you must provide a column {key + "_start"} in '
                         + 'the dataset if you want to use "auxiliary" start-vals'
                     )
-                    meanstartvals = list(
-                        groupby_unsorted(
-                            zip(self._groupindex, self.dataset[key + "_start"]),
-                            key=itemgetter(0),
-                            get=itemgetter(1),
-                        ).values()
-                    )
-
                     # evaluate the mean start-value for each group
-                    if val[2] == "index":
-                        # avoid grouping with _param_assigns since anyway
-                        # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
-                    else:
-                        # get a rectangularized list of indices for each
-                        # parameter (instead of using a loop which can be VERY
-                        # slow for a large number of parameters)
-                        st, sm = rectangularize(
-                            self._param_assigns[key].values(), return_mask=True
-                        )
-                        # average over each group in the dataset
-                        meanstartvals = np.ma.mean(
-                            rectangularize(meanstartvals, return_masked=True),
-                            axis=1,
-                        )
-                        # assign individual values to each parameter-group
-                        meanstartvals = np.ma.mean(
-                            np.ma.masked_array(np.take(meanstartvals, st), sm),
-                            axis=1,
-                        ).compressed()
+                    meanstartvals = (
+                        pd.Series(np.asarray(self.dataset[key + "_start"]))
+                        .groupby(np.asarray(self.param_dyn_dict[key]), sort=False)
+                        .mean()
+                        .to_numpy()
+                    )
 
                     startvaldict[key] = meanstartvals
                 else:
-- 
2.43.0


From dc3194131d2a733f068e9eb1f7f8ed059d3f2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 016/100] fix: calc_model(return_components=True) failed for
 linear intensity units

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b0735de..e6a71d0 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1746,7 +1746,7 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = R.calc()
+            model_calc = np.array(np.broadcast_arrays(*R.calc()))
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 55e7ba0f85178c61106c959963526e55ff5bdefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 017/100] fix: interaction-contribution for bistatic geometries
 with fixed angles

the coefficients incorporate the numerical values of fixed angles, but they were evaluated with
interchanged incidence- and exit-angles for the surface-volume path
---
 rt1/rt1.py | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index d9231e3..81d20b3 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -203,7 +203,7 @@ class RT1(object):
         # this is required since functions created by
         # symengine are currently not pickleable!
         log.info("dropping fn-coefficients to allow pickling...")
-        for delkey in ["_RT1__fn"]:
+        for delkey in ["_RT1__fn", "_RT1__fnevals_reversed"]:
             if delkey in self.__dict__:
                 log.info(f"removing {delkey} from __dict__")
                 del self.__dict__[delkey]
@@ -389,6 +389,39 @@ class RT1(object):
 
     _fnevals = property(_get_fnevals, _set_fnevals)
 
+    def _get_fnevals_reversed(self):
+        """
+        a function to evaluate the fn-coefficients for the reversed path (i.e.
+        the incidence- and exit-direction interchanged).
+
+        The fn-coefficients incorporate the numerical values of all angles that
+        are treated as "fixed", so they can not be re-used for the reversed path.
+        """
+        if self.geometry == "mono" or "f" not in self.geometry:
+            return self._fnevals
+
+        try:
+            return self.__fnevals_reversed
+        except AttributeError:
+            g = self.geometry
+            self.__fnevals_reversed = RT1(
+                I0=self.I0,
+                t_0=self.t_ex,
+                t_ex=self.t_0,
+                p_0=self.p_ex,
+                p_ex=self.p_0,
+                V=self.V,
+                SRF=self.SRF,
+                geometry=g[1] + g[0] + g[3] + g[2],
+                param_dict=self.param_dict,
+                lambda_backend=self.lambda_backend,
+                int_Q=self.int_Q,
+                verbosity=self.verbosity,
+            )._fnevals
+            return self.__fnevals_reversed
+
+    _fnevals_reversed = property(_get_fnevals_reversed)
+
     def _get_t_0(self):
         return self.__t_0
 
@@ -1314,7 +1347,7 @@ class RT1(object):
 
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            fn = np.broadcast_arrays(*self._fnevals_reversed(args))
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1325,7 +1358,7 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            fn = np.broadcast_arrays(*self._fnevals_reversed(*args))
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From b988fc8b13829c8a962722200d646a76aaf26fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 018/100] fix: check the uniqueness of p_ex (and not p_0) if
 p_ex is treated as fixed angle

---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index ac16095..20ead7f 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 2a151d9..3fd80f4 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From fd8a033e053291f9a21cddd3ffb792bc2e16a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 019/100] fix: interaction-contribution for nadir (nan) and
 near-nadir (cancellation) angles

---
 rt1/rt1.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 81d20b3..8f20dc6 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1381,11 +1381,12 @@ class RT1(object):
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
 
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+        with np.errstate(divide="ignore", invalid="ignore"):
+            hlp0 = np.log(mu / (1.0 - mu)) + expi(tau * (1.0 - mu) / mu)
+            # use the limit mu -> 1 in case of nadir incidence
+            hlp0 = np.where(mu == 1.0, np.log(tau) + np.euler_gamma, hlp0)
+
+        hlp1 = np.exp(-tau / mu) * hlp0 - expi(-tau)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From 95fb7f8d12cb6daef6e01974bebe5085e5175986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 020/100] fix: clear also the cached derivatives of the
 volume-scattering functions

---
 rt1/rt1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 8f20dc6..da51ff7 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -226,7 +226,7 @@ class RT1(object):
 
         names = [
             "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
+            "_d_volume_dummy_lambda",
             "_mu_0_x",
             "_mu_ex_x",
         ]
@@ -234,7 +234,7 @@ class RT1(object):
 
     def _clear_cache(self):
         self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
+        self._d_volume_dummy_lambda.cache_clear()
         RT1._mu_0_x.fget.cache_clear()
         RT1._mu_ex_x.fget.cache_clear()
 
-- 
2.43.0


From d75cfdf2d332e768f46599e93f5b586f4b018933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 021/100] fix: interaction-contribution with
 lambda_backend="sympy" if all coefficients are constants

---
 rt1/rt1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index da51ff7..2315c80 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1316,7 +1316,8 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            # (coefficients that do not depend on the arguments are scalars)
+            fn = np.broadcast_arrays(args[0], *self._fnevals(*args))[1:]
 
         multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1358,7 +1359,8 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals_reversed(*args))
+            # (coefficients that do not depend on the arguments are scalars)
+            fn = np.broadcast_arrays(args[0], *self._fnevals_reversed(*args))[1:]
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From d0b78fd30b2d41c9de33153635dbc9191fe664c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 022/100] fix: angular derivatives of the CosineLobe (undefined
 'Derivative' in the lambdified function)

---
 rt1/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index 20ead7f..172bba7 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -410,6 +410,8 @@ class Surface(Scatter):
             )
 
             dfunc_dtheta_0 = sp.diff(func, theta_ex, n)
+            # the derivative of sign(x) (e.g. CosineLobe) vanishes for all x != 0
+            dfunc_dtheta_0 = dfunc_dtheta_0.replace(sp.Derivative, lambda *args: 0)
 
         if return_symbolic is True:
             return dfunc_dtheta_0
-- 
2.43.0


From fbe70a3ec5f6fe85b32209d53a66eb16e455a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 023/100] fix: metrics of series with the same name but
 different lengths

---
 rt1/rtmetrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..0fc4441 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -187,9 +187,10 @@ class _RTmetrics1(object):
             )
 
             # try to unify the index
-            df = pd.concat([self.d1, self.d2], axis=1, copy=False)
-            d1 = df[self._d1].dropna()
-            d2 = df[self._d2].dropna()
+            # (use keys since the series might have the same name)
+            df = pd.concat([self.d1, self.d2], axis=1, copy=False, keys=["d1", "d2"])
+            d1 = df["d1"].dropna().rename(self._d1)
+            d2 = df["d2"].dropna().rename(self._d2)
 
             assert len(d1) == len(d2), (
                 "the length of the 2 datasets is "
-- 
2.43.0


From c2f96099961dbaa9fc2773ec5ccfcfbdf88a94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 024/100] fix: find_missing() of an empty list started at 1
 instead of 0

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..20f0504 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -384,7 +384,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else start - 1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From d6bee2d8afd7fe1f4003151e4ea2f598f45d8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 025/100] fix: meandatetime() of lists of datetime-objects

---
 rt1/general_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 20f0504..277a931 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -113,8 +113,8 @@ def meandatetime(datetimes):
         return datetimes[0]
 
     x = datetimes
-    deltas = (x[0] - x[1:]) / len(x)
-    meandelta = sum(deltas)
+    deltas = [(x[0] - i) / len(x) for i in x[1:]]
+    meandelta = sum(deltas[1:], deltas[0])
     meandate = x[0] - meandelta
     return meandate
 
-- 
2.43.0


From 0842adab323c837076d0c804ad68dc64f3e089f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 026/100] fix: interpolate_to_index() of lists and arrays

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 277a931..36fb2ab 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -346,7 +346,7 @@ def interpolate_to_index(data, index, data_index=None, **interp1d_kwargs):
             'you must provide "data_index"' + "if data is provided as list or array"
         )
 
-        f = interp1d(data_index.to_julian_date(), data.values, **kwargs)
+        f = interp1d(data_index.to_julian_date(), np.asarray(data), **kwargs)
         x = f(index.to_julian_date())
         return Series(x, index)
 
-- 
2.43.0


From 002963a6bc990624ac6ca759f4efe9904eefff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 027/100] fix: reinit_object() ignored share_fnevals and
 share_auxdata

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e6a71d0..b53dfdb 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2762,7 +2762,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From f2c6be654f12919fcc05fd7da7104241e6ab9e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 028/100] fix: the interaction contribution of a fit depended
 on the order in which the parameters are provided to fit.calc()

---
 rt1/rtfits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b53dfdb..76daff2 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1679,7 +1679,12 @@ class Fits(Scatter):
         }
 
         # set the param-dict to the newly generated dict
-        R.param_dict = strparam_fn
+        # (maintain the order of the parameters since the values are passed as
+        # positional arguments to the functions used to evaluate the fn-coefficients)
+        R.param_dict = {
+            **{key: strparam_fn[key] for key in R.param_dict if key in strparam_fn},
+            **strparam_fn,
+        }
 
         return R
 
-- 
2.43.0


From 860851bee78e46f99d899cd11dd3b2f26dc38c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 029/100] fix: the pre-evaluated interaction functions of a fit
 were kept when set_V_SRF or defdict changed

---
 rt1/rtfits.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 76daff2..3ffd5bd 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -412,6 +412,10 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        if attr == "set_V_SRF":
+            # pre-evaluated functions belong to the previous definition
+            self._fnevals_input = None
+
         super().__setattr__(attr, value)
 
     @property
@@ -1326,6 +1330,14 @@ class Fits(Scatter):
             verbosity=self.verbose,
         )
 
+        if self.int_Q is True:
+            # the _fnevals functions can only be re-used as long as the definitions
+            # (and the order) of the parameters remain unchanged
+            fnevals_defs = (self._setdict, list(R.param_dict))
+            if getattr(self, "_fnevals_defs", fnevals_defs) != fnevals_defs:
+                self._fnevals_input = None
+            self._fnevals_defs = fnevals_defs
+
         if self.int_Q is True and self._fnevals_input is None:
             self._fnevals_input = R._fnevals
         elif self.int_Q is True:
-- 
2.43.0


From a320cdc30c858ab96dde2d607c85d101bd9d5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 030/100] fix: calc_model(assign=False) added the fixed values
 to the fit results (or to the provided dict)

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 3ffd5bd..8c32cb5 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1639,7 +1639,8 @@ class Fits(Scatter):
         #             key, val in self._assignvals(res_dict).items()}
         if assign is True:
             res_dict = self._assignvals(res_dict, interp_vals)
-        res_dict.update(fixed_dict)
+        # (avoid changing the provided dict)
+        res_dict = {**res_dict, **fixed_dict}
 
         # update the numeric representations of omega, tau and NormBRDF
         # based on the values for the used symbols provided in res_dict
-- 
2.43.0


From 0ca3b11a56adfd81486389fe7a94f294bcfb5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 031/100] fix: assigning the defdict of another fit shared the
 definitions between the fits

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8c32cb5..0af0749 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -328,7 +328,8 @@ class Fits(Scatter):
     @defdict.setter
     def defdict(self, d):
         if isinstance(d, _RT1_defdict):
-            self._defdict = d
+            # use a copy to avoid sharing the definitions with other fits
+            self._defdict = copy.deepcopy(d)
         elif d is None:
             self._defdict = _RT1_defdict()
         else:
-- 
2.43.0


From fa09f67497b77b8a44ffc81875c3384b65925a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 032/100] fix: MultiFits.set_dataset() did not clear the cached
 properties of the fits

---
 rt1/rtfits.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0af0749..b2d5ae8 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3238,9 +3238,7 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From 8e166ba60c6108e321780a424c0296efc0fe2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 033/100] fix: add_config() listed overwritten configs twice
 and did not attach the reader_arg

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b2d5ae8..c460bb2 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3320,10 +3320,12 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
+        fit_object.reader_arg = self.reader_arg
         fit_object.config_name = name
         setattr(self.configs, name, fit_object)
 
-- 
2.43.0


From 2f2f9ad7cfc35cbed5786da88e6d98254c8d620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 034/100] fix: callbacks of the MultiFits accessor could not be
 called with arguments

---
 rt1/rtfits.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index c460bb2..d197b01 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3060,16 +3060,12 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly
+            use_args = (*args, *start_args[len(args) :])
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-- 
2.43.0


From 577d41d18eb2fc1c012bbddda215bcd6d7756e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 035/100] fix: accessing properties of all configs printed the
 name of the property

---
 rt1/rtfits.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d197b01..f92b615 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3049,7 +3049,6 @@ class _MultiAccessors:
 
     def _getit(self, prop):
         def _get_all(self):
-            print(prop)
             return {name: getattr(fit, prop) for name, fit in self.config_fits.items()}
 
         return _get_all
-- 
2.43.0


From 008eec1388391a253dd0e0120e1f060e5caaf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 036/100] fix: fits whose name is no identifier (e.g. 'a-b')
 got a second prefix when loaded from the results file

---
 rt1/rtresults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 172eaf6..3b52427 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -655,7 +655,8 @@ class HDFaccessor(object):
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
 
-                mf.set_ID(self.IDs.loc[ID].values[0])
+                # (use the original ID since the prefix will be added again if necessary)
+                mf.set_ID(reader_arg["ID"])
                 return mf
 
             else:
@@ -663,7 +664,8 @@ class HDFaccessor(object):
                     key: literal_eval(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
-                fit.ID = self.IDs.loc[ID].values[0]
+                # (use the original ID since the prefix will be added again if necessary)
+                fit.ID = reader_arg["ID"]
 
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
-- 
2.43.0


From 057b2000e1778741aeceea10f6e0a1f696e04175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 037/100] fix: the manual parameter dynamics were lost when a
 fit is saved without its dataset

---
 rt1/rtfits.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f92b615..c298fc6 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2921,17 +2921,17 @@ class Fits(Scatter):
                 if isinstance(self, MultiFits):
                     dynkeys = set(
                         key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
+                        for cfg, defdict in self.apply(lambda fit: fit.defdict)
                         for key, val in defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in str(val[2])
                     )
                 else:
                     dynkeys = set(
                         key + "_dyn"
                         for key, val in self.defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in str(val[2])
                     )
-                df = getattr(self, "dataset", None)[dynkeys]
+                df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
-- 
2.43.0


From 8143ead55736832fa3cb55a91948c4600f6eead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 038/100] fix: fits whose settings contain numpy numbers could
 not be loaded from the results file (numpy 2)

---
 rt1/rtfits.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index c298fc6..66c279b 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -44,6 +44,21 @@ except ModuleNotFoundError:
     log.warning("cloudpickle could not be imported, .dump() will not work!")
 
 
+def _to_builtins(val):
+    """
+    (recursively) convert numpy objects to the corresponding python builtins
+    (e.g. to get a representation that can be parsed with ast.literal_eval)
+    """
+    if isinstance(val, dict):
+        return {_to_builtins(key): _to_builtins(i) for key, i in val.items()}
+    elif isinstance(val, (list, tuple)):
+        return type(val)(map(_to_builtins, val))
+    elif isinstance(val, (np.ndarray, np.generic)):
+        return val.tolist()
+    else:
+        return val
+
+
 def _check_multi(fit):
     return fit.__class__.__name__ == "MultiFits"
 
@@ -2745,7 +2760,7 @@ class Fits(Scatter):
             "lsq_kwargs": self.lsq_kwargs,
             "int_Q": self.int_Q,
         }
-        return args
+        return _to_builtins(args)
 
     def reinit_object(self, share_fnevals=False, share_auxdata=True, **kwargs):
         """
-- 
2.43.0


From 2b968cc277f0aa767c7aaa65cff365e178349d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 039/100] fix: fits with infinite boundaries could not be
 loaded from the results file

---
 rt1/rtresults.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 3b52427..d1d05eb 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -6,7 +6,7 @@ from collections import defaultdict
 import weakref
 import os
 from pathlib import Path
-from ast import literal_eval
+import ast
 import gc
 
 import numpy as np
@@ -31,6 +31,18 @@ except ModuleNotFoundError:
 from contextlib import contextmanager
 
 
+def literal_eval(val):
+    """ast.literal_eval() with support for "inf" and "nan" (e.g. used as boundary)"""
+
+    class _replace_names(ast.NodeTransformer):
+        def visit_Name(self, node):
+            if node.id in ("inf", "nan"):
+                return ast.Constant(float(node.id))
+            return node
+
+    return ast.literal_eval(_replace_names().visit(ast.parse(val, mode="eval")))
+
+
 class RTresults(object):
     """
     A class to provide easy access to processed results.
-- 
2.43.0


From 20bb8a19f2732288532fc52b014477bfbab14d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 040/100] fix: jacobian of fits whose tau, omega or NormBRDF
 expression contains auxiliary datasets

---
 rt1/rtfits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 66c279b..26b4f00 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1891,7 +1891,14 @@ class Fits(Scatter):
                 if diff_func is None:
                     data = data + outer[name]
                 else:
-                    d_inner = diff_func(**{symb: res_dict[symb] for symb in symbs})
+                    d_inner = diff_func(
+                        **{
+                            symb: res_dict[symb]
+                            if symb in res_dict
+                            else fixed_dict[symb]
+                            for symb in symbs
+                        }
+                    )
                     data = data + outer[name] * d_inner
             data = np.ravel(data * self.data_weights)
 
-- 
2.43.0


From 3a76fe3bf2ce90b6b37a683fda8b2ef8d9c56969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 041/100] fix: intermediate results of a previous fit were kept
 (and extended) by later fits

---
 rt1/rtfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 26b4f00..b0e1bba 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2267,6 +2267,8 @@ class Fits(Scatter):
         # encountered in a group)
 
         # set up the dictionary for storing intermediate results
+        # (and remove the results of previous runs)
+        self.__dict__.pop("intermediate_results", None)
         if intermediate_results is True:
             self.intermediate_results = {
                 "parameters": [],
-- 
2.43.0


From b0be3c6183717be12aee4455cf4ed2e51542e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 042/100] fix: model_definition could not be printed for
 integer start-values or boundaries

---
 rt1/rtfits.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b0e1bba..8f7b1af 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2535,6 +2535,13 @@ class Fits(Scatter):
         outstr : str
         """
 
+        def fmt(val, precision):
+            # convert numbers to float since the precision can not be used with int
+            # (or numpy-integers), and represent all other values as strings
+            if isinstance(val, (str, bool)) or not np.isscalar(val):
+                return str(val)
+            return f"{float(val):.{precision}}"
+
         fitted, auxiliary, fixed = "", [], []
 
         fitted += (
@@ -2549,7 +2556,7 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             if val[0] is True:
                 name = f"{key:<13}"
-                star = f"{val[1]:.10}".ljust(13)
+                star = fmt(val[1], 10).ljust(13)
 
                 if val[2] is not None:
                     freqs = map(str.strip, str(val[2]).split("+"))
@@ -2557,7 +2564,7 @@ class Fits(Scatter):
                 else:
                     vari = "      -       "
 
-                boun = (f"{val[3][0][0]:.5}" + "-" + f"{val[3][1][0]:.5}").ljust(13)
+                boun = (fmt(val[3][0][0], 5) + "-" + fmt(val[3][1][0], 5)).ljust(13)
                 try:
                     inte = f"{str(val[4]):<14}"
                 except IndexError:
-- 
2.43.0


From ff493f05c869227f8f0cbf8158dda808933e62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 043/100] fix: polarplot and hemreflect used functions that are
 not available in current numpy and scipy versions

---
 rt1/rtplots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index eb37667..40e6898 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -244,7 +244,7 @@ def polarplot(
                     [],
                     color=color,
                     label=r"$\theta_0$ = "
-                    + str(np.round_(np.rad2deg(ti), decimals=1))
+                    + str(np.round(np.rad2deg(ti), decimals=1))
                     + r"${}^\circ$",
                 )
             ]
@@ -321,7 +321,7 @@ def hemreflect(
         hemispherical reflectance
     """
 
-    from scipy.integrate import simps
+    from scipy.integrate import simpson
 
     # choose BRDF function to be evaluated
     if R is not None:
@@ -374,7 +374,7 @@ def hemreflect(
 
         # evaluate the integral using Simpson's Rule twice
         z = integfunkt(x[:, None], y)
-        sol = sol + [simps(simps(z, y), x)]
+        sol = sol + [simpson(simpson(z, x=y), x=x)]
 
     sol = np.array(sol) * NormBRDF
 
-- 
2.43.0


From 1adb5e416c37b81f86e5a0fcd6efedf3bf5f30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 044/100] fix: plot.results(startvals=True) used an attribute
 that does not exist

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 40e6898..149b209 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1001,7 +1001,7 @@ class plot:
 
         # ----------- plot start-values ------------
         if startvals is True:
-            startplot = fit._calc_model(res_dict=fit.start_dict)
+            startplot = fit._calc_model(res_dict=fit._startvaldict)
             for i, val in enumerate(startplot[result_selection]):
                 if i == 0:
                     label = "fitstart"
-- 
2.43.0


From 3bc2b2fc42321d73ee2fa764ccb2f0ffcc665253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 045/100] fix: printsig0analysis failed without full
 incidence-angle range, at the end of the range and with auxiliary datasets

---
 rt1/rtplots.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 149b209..bafb61b 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1599,13 +1599,17 @@ class plot:
                 fitdB=dB,
                 fitsig0=sig0,
             )
+        newsig0_vals, newsig0_vals_I_linear = dict(), dict()
         if printfullt_0 is True:
             inc = np.deg2rad(np.arange(1, 89, 1))
             if use_index == "dataset":
+                # use one value for each unique index (same as for fit.res_df)
+                usefixedparams = fit.dataset[list(fit.fixed_dict)]
+                usefixedparams = usefixedparams.groupby(level=0).first()
                 newsig0_vals = fit.calc(
                     param=fit.res_df,
                     inc=inc,
-                    fixed_param=fit.dataset[fit.fixed_dict.keys()],
+                    fixed_param=usefixedparams,
                     return_components=True,
                 )
             elif use_index == "groups":
@@ -1631,7 +1635,6 @@ class plot:
 
             newsig0_vals["incs"] = np.broadcast_to(inc, newsig0_vals["tot"].shape)
 
-            newsig0_vals_I_linear = dict()
             for key in ["tot", "surf", "vol", "inter"]:
                 if key not in newsig0_vals:
                     continue
@@ -2099,9 +2102,8 @@ class plot:
                 label.set_text(sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M"))
             elif dayrange > 1:
                 lday_0 = sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M")
-                lday_1 = sig0_vals["indexes"][day0 + dayrange - 1].strftime(
-                    "%d. %b %Y %H:%M"
-                )
+                day1 = min(day0 + dayrange, len(sig0_vals["indexes"])) - 1
+                lday_1 = sig0_vals["indexes"][day1].strftime("%d. %b %Y %H:%M")
                 label.set_text(f"{lday_0} - {lday_1}")
 
             maxdays = len(sig0_vals["incs"])
-- 
2.43.0


From 5d8da295808028188b48aeab980afd21cc342632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 046/100] fix: parse the power of a CosineLobe in a config-file
 as integer

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..f7169a6 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -254,7 +254,7 @@ class RT1_configparser(object):
         parsed_dict = dict()
         for key in inp:
             val = None
-            if key == "ncoefs" or key[1:] == "__ncoefs":
+            if key in ["ncoefs", "i"] or key[1:] in ["__ncoefs", "__i"]:
                 val = inp.getint(key)
             elif key == "a" or key[1:] == "__a":
                 val = inp[key]
-- 
2.43.0


From 5889980cbb3dfeecd11035eaa051da216ea99dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 047/100] fix: merge overrides of linear-combinations in
 multi-config files

---
 rt1/rtparse.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index f7169a6..f0d5076 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -248,11 +248,11 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
-        inp = self.config[section]
-
+    def _parse_V_SRF(self, *sections):
+        # (values of subsequent sections override values of previous sections)
         parsed_dict = dict()
-        for key in inp:
+        for section, key in [(s, key) for s in sections for key in self.config[s]]:
+            inp = self.config[section]
             val = None
             if key in ["ncoefs", "i"] or key[1:] in ["__ncoefs", "__i"]:
                 val = inp.getint(key)
@@ -285,6 +285,11 @@ class RT1_configparser(object):
                             choices[key[0]][1][key[3:]] = parsed_dict.pop(key)
 
                 parsed_dict[f"{prefix}choices"] = list(choices.values())
+            elif f"{prefix}_name" in parsed_dict and len(sections) > 1:
+                # a linear-combination was replaced by a single function
+                for key in list(parsed_dict):
+                    if key[0].isupper() and key[1:].startswith("__"):
+                        parsed_dict.pop(key)
         return parsed_dict
 
     def _parse_defdict(self, section):
@@ -390,14 +395,14 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
-                set_V_SRF["V_props"] = V_props
+                set_V_SRF["V_props"] = self._parse_V_SRF(
+                    "RT1_V", f"#config {config} RT1_V"
+                )
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
-                set_V_SRF["SRF_props"] = SRF_props
+                set_V_SRF["SRF_props"] = self._parse_V_SRF(
+                    "RT1_SRF", f"#config {config} RT1_SRF"
+                )
 
         return dict(
             lsq_kwargs=lsq_kwargs,
-- 
2.43.0


From 3b422bbcf72d04936f2592e1796ab41f8e4b407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 048/100] fix: keep the order in which configurations are
 defined in a config-file

---
 rt1/rtparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index f0d5076..e01fcfa 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -434,7 +434,8 @@ class RT1_configparser(object):
                             + "of the .ini file"
                         )
 
-        return set(config_sections)
+        # unique names (in the order in which they appear in the file)
+        return list(dict.fromkeys(config_sections))
 
     def get_fitobject(self):
         configs = self.config_names
-- 
2.43.0


From 842f215ae0ce39ce4ba8dd5ca5e8e0e675cc792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 049/100] fix: parse empty lists in the PROCESS_SPECS of a
 config-file

---
 rt1/rtparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e01fcfa..24bd03b 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -650,7 +650,9 @@ class RT1_configparser(object):
                             return x
 
                     process_specs[listkey] = [
-                        conffunc(i.strip()) for i in val.strip()[1:-1].split(",")
+                        conffunc(i.strip())
+                        for i in val.strip()[1:-1].split(",")
+                        if len(val.strip()[1:-1].strip()) > 0
                     ]
 
                 else:
-- 
2.43.0


From 2b6bd23d170126b50751ab66af4cce9852671471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 050/100] fix: allow None for numeric solver-options in a
 config-file

---
 rt1/rtparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index 24bd03b..45ba118 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -226,7 +226,10 @@ class RT1_configparser(object):
 
         parsed_dict = dict()
         for key in inp:
-            if key in float_keys:
+            if key in [*int_keys, *float_keys] and inp[key] == "None":
+                # parse None as "real" None
+                val = None
+            elif key in float_keys:
                 val = inp.getfloat(key)
             elif key in int_keys:
                 val = inp.getint(key)
-- 
2.43.0


From 236b647c561f630e3c44c1e9daab7db482d819f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 051/100] fix: use the scattering-angle weights passed to
 Rayleigh

---
 rt1/volume.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt1/volume.py b/rt1/volume.py
index 3fd80f4..5191b43 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -614,10 +614,11 @@ class Rayleigh(Volume):
     """
 
     name = "Rayleigh"
-    _param_names = ["tau", "omega"]
+    _param_names = ["tau", "omega", "a"]
 
-    def __init__(self, **kwargs):
+    def __init__(self, a=[-1.0, 1.0, 1.0], **kwargs):
         super(Rayleigh, self).__init__(**kwargs)
+        self.a = a
 
     @property
     def ncoefs(self):
-- 
2.43.0


From f55f0d5d078be267b56c8993263551beacc6d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 052/100] fix: use the process-specs of the stored config-file
 in the set-up

---
 rt1/rtprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..28f4c12 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -335,6 +335,12 @@ class RTprocess(object):
         # copying is only performed in the main-process!
         if self.copy is True:
             self._copy_cfg_and_modules()
+            # use the specs of the copied config-file (in the current folder)
+            specs = {
+                **self.cfg.get_process_specs(),
+                "save_path": specs["save_path"],
+                "dumpfolder": specs["dumpfolder"],
+            }
 
         # get the name of the processing-module and the processing-class
         proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
-- 
2.43.0


From fa53ed949b1689046db2152b5ea99036de3dc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 053/100] fix: allow init_kwargs as nested dicts in the
 initialization of RTprocess

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 28f4c12..7fe8d26 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -153,8 +153,8 @@ class RTprocess(object):
             self.init_kwargs = dict()
         else:
             assert all(
-                [isinstance(i, str) for i in init_kwargs.values()]
-            ), 'the values of "init_kwargs" MUST be strings !'
+                isinstance(i, str) for d in init_kwargs.values() for i in d.values()
+            ), 'the values of the sections in "init_kwargs" MUST be strings !'
             self.init_kwargs = init_kwargs
 
     @staticmethod
-- 
2.43.0


From 2320dfafba54d6cf07de2b5424d2e297ad682199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 054/100] fix: keep the overrides of other sections in
 override_config(override=False)

---
 rt1/rtprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 7fe8d26..5cc6ad9 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -239,6 +239,7 @@ class RTprocess(object):
                     **self.init_kwargs.get(section, {}),
                     **init_defs,
                 }
+            init_kwargs = {**self.init_kwargs, **init_kwargs}
 
         self.init_kwargs = init_kwargs
 
-- 
2.43.0


From adbb9f4ba8c248c032e9ddd2e0eec1b8c4d7f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 055/100] fix: allow running a process without a log-file
 (logfile_level=None)

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 5cc6ad9..1f03009 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -884,7 +884,7 @@ class RTprocess(object):
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
             else:
-                queue, proc_counter = None
+                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -944,7 +944,7 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -1124,7 +1124,7 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
-- 
2.43.0


From 281edfd2b341ac05296e63e9ed6858ae2cba70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 056/100] fix: abort the processing properly if the set-up is
 not confirmed

---
 rt1/rtprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 1f03009..ff4eeba 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -860,6 +860,7 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
+        queue = None
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -961,7 +962,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if queue is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
@@ -1062,6 +1063,7 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        queue = None
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1139,7 +1141,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if queue is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
-- 
2.43.0


From c924fb4d92b50c2f5d0d73b2f384887d073c6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 057/100] fix: restore autocontinue if the set-up of
 run_finaloutput fails

---
 rt1/rtprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index ff4eeba..11edb32 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1076,8 +1076,10 @@ class RTprocess(object):
             # initialize all necessary properties with autocontinue=True
             initial_autocontinue = self.autocontinue
             self.autocontinue = True
-            self.setup()
-            self.autocontinue = initial_autocontinue
+            try:
+                self.setup()
+            finally:
+                self.autocontinue = initial_autocontinue
 
             # if "save-path" is not provided explicitly, use the path from the config
             if save_path is None:
-- 
2.43.0


From 72efdd5a335eadf23431f5e3fc39138d764dd8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 058/100] fix: do not change the passed pool_kwargs

---
 rt1/rtprocess.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 11edb32..0738a18 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -716,8 +716,7 @@ class RTprocess(object):
             if "pool_kwargs" in setupdict:
                 pool_kwargs = setupdict["pool_kwargs"]
 
-            if pool_kwargs is None:
-                pool_kwargs = dict()
+            pool_kwargs = dict() if pool_kwargs is None else dict(pool_kwargs)
 
             # add provided initializer and queue (used for subprocess-logging)
             # to the initargs and use "self._initializer" as initializer-function
-- 
2.43.0


From 1b51b4b364c2e777449b5d4fbd9e4827def6f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 059/100] fix: use the processing_cfg_module specified in the
 CONFIGFILES section

---
 rt1/rtprocess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 0738a18..f5f05eb 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -344,7 +344,10 @@ class RTprocess(object):
             }
 
         # get the name of the processing-module and the processing-class
-        proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
+        proc_module_name = self.cfg.config["CONFIGFILES"].get(
+            "processing_cfg_module",
+            specs.get("processing_cfg_module", "processing_cfg"),
+        )
         proc_class_name = specs.get("processing_cfg_class", "processing_cfg")
 
         # load ALL modules to ensure that the importer finds them
-- 
2.43.0


From 7189618b7d36ffafbe7fb470a45ced846e528bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 060/100] fix: list all solver options in the model definition

---
 rt1/rtfits.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8f7b1af..dfd6b4c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2677,14 +2677,13 @@ class Fits(Scatter):
         keys = [*lsqkw.keys()]
         if len(lsqkw) > 0:
             outstr += "\n\n# LSQ PARAMETERS " + "\n"
-            for key1, key2 in zip(
-                keys[: (len(keys) + 1) // 2], keys[(len(keys) + 1) // 2 :]
-            ):
-                outstr += (
-                    f" {key1:<15}= {lsqkw[key1]}".ljust(37)
-                    + f"  {key2:<15}= {lsqkw[key2]}"
-                    + "\n"
-                )
+            n = (len(keys) + 1) // 2
+            for i, key1 in enumerate(keys[:n]):
+                outstr += f" {key1:<15}= {lsqkw[key1]}".ljust(37)
+                # (there is one more entry on the left in case the number is odd)
+                for key2 in keys[n:][i : i + 1]:
+                    outstr += f"  {key2:<15}= {lsqkw[key2]}"
+                outstr += "\n"
             outstr += "-" * 77
         if self.dataset is not None:
             try:
-- 
2.43.0


From 81dc11b2f8e99a31c1f1a0caa41f0ab19f2a82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 061/100] fix: accept a reader that returns a tuple with only
 the dataset

---
 rt1/rtprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index f5f05eb..b5ba22c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -476,11 +476,11 @@ class RTprocess(object):
             elif isinstance(read_data, (list, tuple)) and isinstance(
                 read_data[0], pd.DataFrame
             ):
-                if len(read_data) == 2:
-                    dataset, aux_data = read_data
-                elif len(read_data) > 2:
-                    dataset = read_data[0]
+                dataset = read_data[0]
+                if len(read_data) > 2:
                     aux_data = read_data[1:]
+                else:
+                    aux_data = read_data[1] if len(read_data) == 2 else None
             else:
                 raise TypeError(
                     "the first return-value of reader function "
-- 
2.43.0


From 7f52b48728965c8cdec92b3447ff624642ce027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 062/100] fix: do not keep the aux_data of the previous site in
 multi-config processing

---
 rt1/rtprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index b5ba22c..bbf67bc 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -495,9 +495,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (always, to avoid keeping the one of previous sites)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 2c4564ee0b3a5b675c115e9f51c295cbea51df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 063/100] fix: use the numeric ID of the site if an existing
 dump-file is used

---
 rt1/processing_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..898b337 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,8 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                # (use the ID assigned to the site in the HDF-store)
+                return fit._get_fit_to_hdf_dict(ID=reader_arg.get("_RT1_ID_num", None))
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From f928c83e48d417f51c218091d210452e91de09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 064/100] fix: support save_res_df for multi-config fits

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index dfd6b4c..bd21e76 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3204,11 +3204,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From f493c11b4d45ded6d5346f7e373b779698d91672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 065/100] fix: load fits without aux_data if other IDs in the
 HDF container have some

---
 rt1/rtresults.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index d1d05eb..d1e9504 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -619,6 +619,9 @@ class HDFaccessor(object):
 
             try:
                 aux_data = self.datasets.aux_data.get_id(ID)
+                if len(aux_data) == 0:
+                    # only other IDs have auxiliary data
+                    aux_data = None
             except Exception:
                 aux_data = None
                 pass
-- 
2.43.0


From 60e52671e5cf720b7cf4a021bffb46dfec82cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 066/100] fix: close the fit_db container after run_finaloutput
 to allow further processing

---
 rt1/rtprocess.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index bbf67bc..69a5de3 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1141,6 +1141,8 @@ class RTprocess(object):
             raise err
 
         finally:
+            self._close_useres()
+
             # turn off capturing warnings
             logging.captureWarnings(False)
 
@@ -1333,6 +1335,15 @@ class RTprocess(object):
             else:
                 raise ex
 
+    def _close_useres(self):
+        """
+        release the results used to load the fits (an open "fit_db.h5" container
+        would block the writer in a following call to `run_processing()`)
+        """
+        useres = self.__dict__.pop("_useres", None)
+        if useres is not None and "fit_db" in useres._hdf_paths:
+            useres.fit_db.close()
+
     def _get_files(self, use_N_files=None, use_dumps=False):
         if not hasattr(self, "_useres"):
             self._useres = getattr(
-- 
2.43.0


From 72798ee28b8d57b7410a76f3430fcdaa26a7eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 067/100] fix: export of parameters that are set to a constant
 value

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 69a5de3..20dfe5c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1749,7 +1749,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From bc7d1c8bb0fd8da9d1a65a2910e190f925571b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 068/100] fix: export the requested quantities and units
 independent of previously exported fits

---
 rt1/rtprocess.py | 88 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 20dfe5c..028f96a 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1565,6 +1565,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
@@ -1581,6 +1583,47 @@ class RTprocess(object):
 
         return out
 
+    @staticmethod
+    def _combine_timeseries(dfs):
+        """
+        combine a list of timeseries (pandas.Series or pandas.DataFrame)
+
+        Series that have only one value for each date are assigned to all rows of
+        the date, multiple values for the same date are combined in their order.
+
+        Parameters
+        ----------
+        dfs : list
+            the timeseries to combine.
+
+        Returns
+        -------
+        df : pandas.DataFrame or None
+            the combined timeseries (None if there are no timeseries)
+        """
+        if len(dfs) == 0:
+            return None
+
+        if not all(df.index.equals(dfs[0].index) for df in dfs[1:]):
+            counts = pd.concat([df.index.value_counts() for df in dfs], axis=1)
+            counts = counts.max(axis=1).astype(int).sort_index()
+            dates = counts.index.repeat(counts)
+
+            def enum(idx):
+                # a unique index (e.g. the date and the position within the date)
+                return pd.MultiIndex.from_arrays(
+                    [idx, pd.Series(idx).groupby(idx).cumcount().values]
+                )
+
+            dfs = [
+                df.reindex(dates)
+                if df.index.is_unique
+                else df.set_axis(enum(df.index)).reindex(enum(dates)).set_axis(dates)
+                for df in dfs
+            ]
+
+        return pd.concat(dfs, axis=1)
+
     @staticmethod
     def _HDF_export_postprocess(
         fit,
@@ -1629,25 +1672,40 @@ class RTprocess(object):
             else:
                 fit._fnevals_input = _fnevals_input
 
-        auxdata, staticlayers = dict(), dict()
+        # (do not change the provided parameters, they are used for all fits!)
+        parameters, model_keys = set(parameters), set(model_keys)
+        auxdata, staticlayers = [], dict()
+
+        # explicitly provided functions override the default extraction-procedures
+        for key, func in (export_functions or dict()).items():
+            if key in parameters | model_keys:
+                parameters.discard(key)
+                model_keys.discard(key)
+
+                val = func(fit)
+                if isinstance(val, (int, float, np.number)):
+                    staticlayers[key] = val
+                elif isinstance(val, pd.DataFrame):
+                    # use the key as name if there is only one column
+                    auxdata.append(val.set_axis([key], axis=1) if val.shape[1] == 1 else val)
+                else:
+                    auxdata.append(pd.Series(val).rename(key))
+
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
-
-        if export_functions:
-            for key, func in export_functions.items():
-                if key in parameters:
-                    val = func(fit)
-                    if isinstance(val, (int, float, np.number)):
-                        staticlayers[key] = val
-                        parameters.remove(key)
-                    else:
-                        auxdata[key] = val
+            model = fit.calc_model(return_components=True)
+            for key in sorted(model_keys):
+                if key not in model:
+                    log.warning(f"the model-contribution {key} is not available")
+                elif sig_to_dB and fit.dB is False:
+                    auxdata.append(10.0 * np.log10(model[key]))
+                else:
+                    auxdata.append(model[key])
 
         ret = RTprocess._postprocess_getparams(
             fit=fit,
-            saveparams=set(parameters) ^ set(auxdata) ^ set(model_keys),
+            saveparams=parameters,
             xindex=("ID", fit._RT1_ID_num),
-            auxdata=pd.DataFrame(auxdata),
+            auxdata=RTprocess._combine_timeseries(auxdata),
             sig_to_dB=sig_to_dB,
             inc_to_degree=inc_to_degree,
             staticlayers=staticlayers,
@@ -1774,7 +1832,7 @@ class RTprocess(object):
 
         if len(usedfs) > 0:
             # combine all timeseries and set the proper index
-            df = pd.concat(usedfs, axis=1)
+            df = RTprocess._combine_timeseries(usedfs)
             df.columns.names = ["param"]
             df.index.names = ["date"]
 
-- 
2.43.0


From 654c62f02c7642d9b7ec7fa07c15abb91c25ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 069/100] fix: accept the name of a single config as use_config
 in the generation of the final output

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 028f96a..53cc85d 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1186,6 +1186,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 if use_config is None or use_config == "from_postprocess":
                     cfgs = self.parent_fit.config_names
+                elif isinstance(use_config, str):
+                    cfgs = [use_config]
                 else:
                     cfgs = use_config
 
-- 
2.43.0


From 6ed18bcdc052b84adb89689f291214cca11ac9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 070/100] fix: use the return of the configured postprocess
 function directly for multi-config fits if requested

---
 rt1/rtprocess.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 53cc85d..daece20 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1286,12 +1286,15 @@ class RTprocess(object):
                         "no explicit 'postprocess' function provided"
                         + "and no 'postprocess' function found in processing_config class"
                     )
-                    ret = dict(
-                        fit.apply(
-                            self.proc_cls.postprocess,
-                            use_config=use_config,
+                    if use_func_directly:
+                        ret = self.proc_cls.postprocess(fit)
+                    else:
+                        ret = dict(
+                            fit.apply(
+                                self.proc_cls.postprocess,
+                                use_config=use_config,
+                            )
                         )
-                    )
                 elif use_func_directly:
                     ret = postprocess(fit)
                 else:
-- 
2.43.0


From a680ed73c75ef77e3bf2fb23ef28945172e0b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 071/100] fix: identify the exported folder with respect to the
 overrides of the config

---
 rt1/rtprocess.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index daece20..d026260 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1351,9 +1351,7 @@ class RTprocess(object):
 
     def _get_files(self, use_N_files=None, use_dumps=False):
         if not hasattr(self, "_useres"):
-            self._useres = getattr(
-                RTresults(self.dumppath, use_dumps=use_dumps), self.proc_cls.dumpfolder
-            )
+            (self._useres,) = RTresults(self.dumppath, use_dumps=use_dumps)
         # get dump-files
         dumpiter = self._useres.dump_files
 
@@ -1521,10 +1519,10 @@ class RTprocess(object):
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
         # don't use "self.dumppath" since it requires a call to setup() !
-        if not hasattr(self, "cfg"):
-            specs = RT1_configparser(self.config_path).get_process_specs()
-        else:
-            specs = self.cfg.get_process_specs()
+        cfg = RT1_configparser(self.config_path)
+        for section, init_defs in self.init_kwargs.items():
+            cfg.config[section].update(init_defs)
+        specs = cfg.get_process_specs()
         res = RTresults(
             specs["save_path"] / specs["dumpfolder"],
             use_dumps=kwargs.get("use_dumps", False),
-- 
2.43.0


From 139bad300e83f3eda22c7cd2c622f00b4dbc1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 072/100] fix: compare the series of the model with respect to
 the order of the dataset in the metrics

---
 rt1/rtmetrics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index 0fc4441..dcf15e3 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -158,10 +158,12 @@ class _RTmetrics1(object):
             return self.auxdat[key]
         elif source == "dataset":
             return self.fit.dataset[key]
-        elif source == "calc_model" and key == "tot":
-            return self.fit.calc_model(return_components=False)[key]
         elif source == "calc_model":
-            return self.fit.calc_model(return_components=True)[key]
+            model = self.fit.calc_model(return_components=key != "tot")[key]
+            # the values of the model are sorted with respect to the groups of the
+            # fit (this is not necessarily the order of the dataset!)
+            order = self.fit._idx_assigns[~self.fit.mask]
+            return model.iloc[np.argsort(order)]
         elif source == "res_df":
             return self.fit.res_df[key]
 
-- 
2.43.0


From e371450716e5bcc868bb2abb39e17db190bf0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 073/100] fix: release the started processes if starting a
 process of a writer_pool fails

---
 rt1/_rtprocess_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 31b5b78..1984be6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -539,9 +539,11 @@ class RT1_processor(object):
     @classmethod
     @contextmanager
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
+        w = cls(*args, **kwargs)
+        manager = w._setup_manager()
+        # (the processes might not all have been started if an exception is raised)
+        writer, combiner = [], []
         try:
-            w = cls(*args, **kwargs)
-            manager = w._setup_manager()
             writer = w._start_writer_process(init_func=init_func, init_args=init_args)
             combiner = w._start_combiner_process(
                 init_func=init_func, init_args=init_args
-- 
2.43.0


From c9c0462d4c87ece3c2b93934d82e8ec6f5e22c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 074/100] fix: initialize set_V_SRF functions with symbols (not
 strings) to get the init_dict and accept undefined properties of the members
 of linear-combinations

---
 rt1/rtfits.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index bd21e76..328f19f 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2206,7 +2206,7 @@ class Fits(Scatter):
         for key, val in props.items():
             if key in ["V_name", "SRF_name", "SRFchoices", "Vchoices"]:
                 continue
-            if key in ["a"]:
+            if key in ["a"] or val is None:
                 # use the values directly without checking anything
                 set_dict[key] = val
                 continue
@@ -2760,8 +2760,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbolic variables
+                V, SRF = self.set_V_SRF(
+                    **{key: sp.Symbol(key) for key in self.defdict._variables}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
-- 
2.43.0


From 46e539e919500c5455b7a31ba61d9e20379bc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 075/100] fix: keep the ID (and arguments) of fits whose
 reader_args can not be stored in a single row

---
 rt1/rtfits.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 328f19f..1addb5d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2937,7 +2937,15 @@ class Fits(Scatter):
             hf["const__reader_arg"] = df
         except Exception:
             log.debug(f"could not save 'reader_arg' for fit {ID}")
-            df = pd.DataFrame({"ID": ID}, [ID])
+            # (convert values that can not be stored in a single cell to strings)
+            reader_arg = {"ID": self.ID, **(self.reader_arg or dict())}
+            df = pd.DataFrame(
+                {
+                    key: val if val is None or np.isscalar(val) else str(val)
+                    for key, val in reader_arg.items()
+                },
+                [ID],
+            )
             df.index.name = "ID"
 
             hf["const__reader_arg"] = df
-- 
2.43.0


From eecd324d32b6dd31c8bb413f19a781ebeed3190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 076/100] fix: export data from dump-files if there is no
 fit_db.h5 file

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index d026260..19034fd 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1543,7 +1543,7 @@ class RTprocess(object):
         # ----- get list of paths to fit-objects
         self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
+        if not self._useres._use_dumps:
             fit0_ID = self._useres.fit_db.IDs.values.flat[0]
         else:
             fit0_ID = 0
-- 
2.43.0


From b228ed9945b85bb767a3a3f19850c5e4e0adf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 077/100] fix: return the ID of fits loaded from a HDF file by
 load_fit(return_ID=True)

---
 rt1/rtresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index d1e9504..9f2674f 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -384,7 +384,9 @@ class RTresults(object):
                 fit = self._load_fit_from_HDF(ID)
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                if self._use_dumps is True or isinstance(ID, Path):
+                    return (fit, filepath.stem)
+                return (fit, None if fit is None else fit.ID)
             else:
                 return fit
 
-- 
2.43.0


From 5f57bd7ac5ecab2d9fb7c0f3b1f0a24b89e92aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 078/100] fix: assign the values to the measurements in scatter
 and timeseries plots of fits with unsorted groups

---
 rt1/rtplots.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index bafb61b..2867bd5 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -481,13 +481,9 @@ class plot:
         fig = plt.figure()
         ax = fig.add_subplot(111)
 
-        # prepare measurements
-        # measures = fit.dataset.sig.values
-        # calculate estimates
-        # estimates = fit.calc_model().tot.values
-        measures, estimates = pd.concat(
-            [fit.dataset.sig, fit.calc_model().tot], axis=1
-        ).values.T
+        # prepare measurements and estimates (in the same order!)
+        measures = fit.data[~fit.mask]
+        estimates = fit.calc_model().tot.values
         if mima is None:
             mi = np.min((measures, estimates))
             ma = np.max((measures, estimates))
@@ -596,12 +592,14 @@ class plot:
         inc_array = np.ma.masked_array(fit.inc, fit.mask)
         inc = inc_array.compressed()
         # get input dataset
-        data = np.ma.masked_array(fit.data, fit.mask)
+        data = np.ma.masked_array(fit.data, fit.mask).compressed()
 
         # calculate individual contributions
         contrib = fit.calc_model(return_components=True)
-        contrib["$\\sigma_0$ dataset"] = fit.dataset.sig
-        contrib["inc"] = fit.dataset.inc
+        # (the order of calc_model is different from fit.dataset if a unsorted
+        # grouping has been used)
+        contrib["$\\sigma_0$ dataset"] = data
+        contrib["inc"] = inc
 
         # convert units
         complist = [i for i in contrib.keys() if i not in ["inc"]]
-- 
2.43.0


From 6f422f8732e5fa122df62d25230482525e8d8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 079/100] fix: show the residuals, results and single
 measurement-groups of a fit at their dates

---
 rt1/rtplots.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 2867bd5..c4e71e3 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -786,6 +786,9 @@ class plot:
         # apply mask to data and incidence-angles (and convert to degree)
         inc = np.ma.masked_array(np.rad2deg(fit.inc), mask=fit.mask)
 
+        # the dates of the measurement-groups
+        dates = np.array(fit.meandatetimes_group)[result_selection]
+
         # make new figure
         fig = plt.figure(figsize=(14, 10))
         ax = fig.add_subplot(212)
@@ -801,11 +804,11 @@ class plot:
             ax2.set_title("Residuals per incidence-angle")
 
         # the use of masked arrays might cause python 2 compatibility issues!
-        ax.plot(fit.index[result_selection], res[result_selection], ".", alpha=0.5)
+        ax.plot(dates, res[result_selection], ".", alpha=0.5)
 
         # plot mean residual for each measurement
         ax.plot(
-            fit.index[result_selection],
+            dates,
             np.ma.mean(res[result_selection], axis=1),
             "k",
             linewidth=3,
@@ -815,7 +818,7 @@ class plot:
 
         # plot total mean of mean residuals per measurement
         ax.plot(
-            fit.index[result_selection],
+            dates,
             [np.ma.mean(np.ma.mean(res[result_selection], axis=1))]
             * len(result_selection),
             "k--",
@@ -980,12 +983,11 @@ class plot:
         # get masked data
         masked_data = np.ma.masked_array(fit.data, fit.mask)
         # get labels
+        dates = np.array(fit.meandatetimes_group)
         try:
-            labels = pd.to_datetime(fit.fit_index).strftime(legend_fmt)[
-                result_selection
-            ]
+            labels = pd.to_datetime(dates).strftime(legend_fmt)
         except Exception:
-            labels = result_selection
+            labels = range(len(fit.data))
 
         for i in result_selection:
             (l,) = ax.plot(fit.inc[i], fitplot[i], alpha=0.4, label=labels[i])
@@ -1039,7 +1041,7 @@ class plot:
         if len(result_selection) < len(fit.data):
             for i, resid in enumerate(result_selection):
                 ax2.text(
-                    fit.index[resid],
+                    dates[resid],
                     ax2.get_ylim()[1] * 0.9,
                     resid,
                     bbox=dict(facecolor=f"C{i}", alpha=0.5),
@@ -1095,20 +1097,14 @@ class plot:
         if fit_numbers is not None and fit_indexes is not None:
             assert False, "please provide EITHER fit_numbers OR fit_indexes!"
         elif fit_indexes is not None:
-            # fit_numbers = np.where(fit.index.isin(fit_indexes))[0]
-            fit_numbers = np.argmin(
-                np.abs(
-                    fit.fit_index
-                    - np.expand_dims(
-                        np.atleast_1d(np.array(fit_indexes, dtype=fit.index.dtype)),
-                        -1,
-                    )
-                ),
-                axis=1,
-            )
+            # get the groups that contain the (nearest) index-values
+            fit_numbers = [
+                np.argmin([np.min(np.abs(idx - i)) for idx in fit._orig_index])
+                for i in np.atleast_1d(np.array(fit_indexes, dtype=fit.index.dtype))
+            ]
 
         elif fit_numbers is None and fit_indexes is None:
-            fit_numbers = [1]
+            fit_numbers = [min(1, len(fit.data) - 1)]
 
         # function to generate colormap that fades between colors
         def CustomCmap(from_rgb, to_rgb):
-- 
2.43.0


From 08f624b7ddf8392c5f7a16e708b5372edc30c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 080/100] fix: show the mean of all values of a parameter in
 the plot of the intermediate results

---
 rt1/rtplots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index c4e71e3..4c5c22c 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1280,9 +1280,9 @@ class plot:
         for i, valdict in enumerate(fit.intermediate_results["parameters"]):
             for key, val in valdict.items():
                 if key in interparams:
-                    interparams[key] += [[i, np.mean(val[0])]]
+                    interparams[key] += [[i, np.mean(val)]]
                 else:
-                    interparams[key] = [[i, np.mean(val[0])]]
+                    interparams[key] = [[i, np.mean(val)]]
         intererrs = {}
         for i, valdict in enumerate(fit.intermediate_results["residuals"]):
             for key, val in valdict.items():
-- 
2.43.0


From b3b75259a6ad4e888e8fe55416f76616e6588724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 081/100] fix: assign intermediate residuals to the
 measurements (unsorted groups) and draw them at the position of their bin

---
 rt1/rtplots.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 4c5c22c..5237354 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2945,26 +2945,35 @@ class plot:
         else:
             iterstep = 1
 
+        # get the residuals in the order of the dataset
+        # (only different from the fit-order in case a unsorted grouping is used)
+        sortp = np.argsort(fit._idx_assigns[~fit.mask])
+        residuals = [i[err][sortp] for i in fit.intermediate_results["residuals"]]
+
         if isinstance(grp, tuple):
             if grp[0] in fit.res_df:
-                grps = pd.cut(
-                    fit.res_df[grp[0]].reindex(fit.dataset.index),
+                vals = fit._assignvals(fit.res_dict)[grp[0]][~fit.mask][sortp]
+                grps, bins = pd.cut(
+                    pd.Series(vals, fit.dataset.index),
                     grp[1],
                     include_lowest=True,
+                    retbins=True,
                 )
             elif grp[0] in fit.dataset:
-                grps = pd.cut(fit.dataset[grp[0]], grp[1], include_lowest=True)
-            grpvals = grps.cat.categories.mid.values
-            ymin, ymax = grps.min().left, grps.max().right
+                grps, bins = pd.cut(
+                    fit.dataset[grp[0]], grp[1], include_lowest=True, retbins=True
+                )
+            grpvals = (bins[1:] + bins[:-1]) / 2
+            ymin, ymax = bins[0], bins[-1]
 
             # group the residuals with respect to the defined group
             resarr = np.abs(
                 [
-                    pd.DataFrame(i[err], fit.dataset.index)
+                    pd.DataFrame(i, fit.dataset.index)
                     .groupby(grps)
                     .mean()
                     .values.flatten()
-                    for i in fit.intermediate_results["residuals"][iter_slice]
+                    for i in residuals[iter_slice]
                 ]
             )
             if axtitle is None:
@@ -2978,11 +2987,11 @@ class plot:
                 grplabels = pd.to_datetime(fit.meandatetimes_group)
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
-                        .groupby(fit._groupindex)
+                        pd.DataFrame(i, fit.dataset.index)
+                        .groupby(fit._groupindex, sort=False)
                         .mean()
                         .values.flatten()
-                        for i in fit.intermediate_results["residuals"][iter_slice]
+                        for i in residuals[iter_slice]
                     ]
                 )
                 grpvals = np.arange(resarr.shape[1])
@@ -2997,14 +3006,14 @@ class plot:
                 use_label = ""
             elif grp == "dataset":
                 # group the residuals with respect to the dataset-index
-                grplabels = pd.to_datetime(fit.index)
+                grplabels = pd.to_datetime(fit.dataset.index.unique().sort_values())
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i, fit.dataset.index)
                         .groupby(level=0)
                         .mean()
                         .values.flatten()
-                        for i in fit.intermediate_results["residuals"][iter_slice]
+                        for i in residuals[iter_slice]
                     ]
                 )
                 grpvals = np.arange(resarr.shape[1])
@@ -3021,7 +3030,7 @@ class plot:
                 # group the residuals with respect to the defined group
                 grplabels = (
                     pd.DataFrame(
-                        fit.intermediate_results["residuals"][0][err],
+                        residuals[0],
                         fit.dataset.index,
                     )
                     .groupby(pd.Grouper(freq=grp))
@@ -3031,11 +3040,11 @@ class plot:
 
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i, fit.dataset.index)
                         .groupby(pd.Grouper(freq=grp))
                         .mean()
                         .values.flatten()
-                        for i in fit.intermediate_results["residuals"][iter_slice]
+                        for i in residuals[iter_slice]
                     ]
                 )
                 grpvals = np.arange(resarr.shape[1])
-- 
2.43.0


From f668b5adcc6027fdff93f3a3a0e20f9fc0c481ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 082/100] fix: polarplots of isotropic functions and in
 existing axes

---
 rt1/rtplots.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 5237354..71ac25c 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -122,6 +122,7 @@ def polarplot(
         polarax = fig.add_subplot(111, projection="polar")
     else:
         assert polarax.name == "polar", "you must provide a polar-axes!"
+        fig = polarax.figure
 
     if ".surface." in str(X.__class__):
         if label is None:
@@ -203,7 +204,12 @@ def polarplot(
 
                 polarax.plot(thetass, rad, color)
                 if aprox is True:
-                    polarax.plot(thetass, radapprox, color + "--")
+                    # (the approximation of isotropic functions is a constant)
+                    polarax.plot(
+                        thetass,
+                        np.broadcast_to(radapprox, thetass.shape),
+                        color + "--",
+                    )
                 polarax.arrow(
                     -ti,
                     pmax * 1.2,
-- 
2.43.0


From 554165da44fa4e52e3755d841ec889f956f28f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 083/100] fix: hemispherical reflectance of surfaces with
 symbolic NormBRDF

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 71ac25c..73386a3 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -342,7 +342,7 @@ def hemreflect(
     elif SRF is not None:
         BRDF = SRF.brdf
         try:
-            Nsymb = SRF.NormBRDF[0].free_symbols
+            Nsymb = SRF.NormBRDF.free_symbols
             Nfunc = sp.lambdify(Nsymb, SRF.NormBRDF, modules=["numpy"])
             NormBRDF = Nfunc(*[param_dict[str(i)] for i in Nsymb])
         except Exception:
-- 
2.43.0


From 0cc304b07b49e3fb5bcd11a9a779e96ecfd710c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 084/100] fix: assign the values to the dates in
 printsig0analysis(use_index='dataset') (unsorted groups, dates of several
 groups)

---
 rt1/rtplots.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 73386a3..cd7e4c1 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1557,14 +1557,16 @@ class plot:
 
         if use_index == "dataset":
             sig0_vals = fit.calc_model(return_components=True)
-            sig0_vals["data"] = fit.dataset.sig
-            sig0_vals["incs"] = fit.dataset.inc
+            # (the order of calc_model is different from fit.dataset if a unsorted
+            # grouping has been used)
+            sig0_vals["data"] = fit.data[~fit.mask]
+            sig0_vals["incs"] = fit.inc[~fit.mask]
             sig0_vals = sig0_vals.groupby(level=0).agg(list).to_dict(orient="list")
             sig0_vals = {
                 key: rectangularize(val, return_masked=True)
                 for key, val in sig0_vals.items()
             }
-            sig0_vals["indexes"] = pd.to_datetime(fit.index)
+            sig0_vals["indexes"] = pd.to_datetime(fit.res_df.index)
         elif use_index == "groups":
             # calculate backscatter values and ensure correct index-order
             # ( in case a unordered dyn-dict is used)
@@ -1703,7 +1705,8 @@ class plot:
 
         # ensure sort-order
         if use_index == "dataset":
-            inc_sortp = np.argsort(fit.index)
+            # (the values are already sorted by the groupby)
+            inc_sortp = np.arange(len(sig0_vals["indexes"]))
         elif use_index == "groups":
             inc_sortp = np.argsort(fit.meandatetimes_group)
 
-- 
2.43.0


From 44c934f80da1ed8df62f36e5af30e0665741ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 085/100] fix: show the full-range curves of the groups in
 printsig0analysis if the mean dates of the groups are not unique

---
 rt1/rtplots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index cd7e4c1..388bb12 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1622,8 +1622,11 @@ class plot:
                         fit.dataset[fit.fixed_dict.keys()]
                         .groupby(fit._groupindex, sort=False)
                         .mean()
-                        .set_index(pd.to_datetime(fit.meandatetimes_group))
                     )
+                    # (the mean-datetimes of the groups are not necessarily unique)
+                    usefixedparams = {
+                        key: val.values for key, val in usefixedparams.items()
+                    }
                 else:
                     usefixedparams = dict()
                 newsig0_vals = fit.calc(
-- 
2.43.0


From 4fd79171d456727b7de384609a7973338ca01b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 086/100] fix: clear the lines of measurements that are no
 longer selected in printsig0analysis

---
 rt1/rtplots.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 388bb12..d402310 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2090,6 +2090,11 @@ class plot:
                 styledict_fullt0_dict,
             )
 
+        def hide_lines(lines):
+            # clear the lines of days that are no longer shown
+            for line in lines:
+                line.set_data([], [])
+
         # define function to update lines based on slider-input
         def animate(
             day0,
@@ -2137,8 +2142,9 @@ class plot:
                 lines[i].set_ydata(sig0_vals["data"][day])
                 i += 1
                 # update day-indicator line
-                lines[i].set_xdata([sig0_vals["indexes"][day]] * 2)
+                lines[i].set_data([sig0_vals["indexes"][day]] * 2, indicator_bounds)
                 i += 1
+            hide_lines(lines[i:])
 
             i = 0
             for day in np.arange(day0, day0 + dayrange, 1):
@@ -2160,6 +2166,7 @@ class plot:
                     lines_frac[i].set_xdata(np.rad2deg(sig0_vals["incs"][day]))
                     lines_frac[i].set_ydata(lininter / lintot)
                 i += 1
+            hide_lines(lines_frac[i:])
 
             if printfullt_0 is True:
                 i = 0
@@ -2183,6 +2190,8 @@ class plot:
                             linesfull[i].set_xdata(day_inc_new[sortp])
                             linesfull[i].set_ydata(newsig0_vals["inter"][day][sortp])
                         i += 1
+                hide_lines(linesfull[i:])
+
                 i = 0
                 for day in np.arange(day0, day0 + dayrange, 1):
                     if day >= maxdays:
@@ -2206,6 +2215,7 @@ class plot:
                         lines_frac_full[i].set_xdata(day_inc_new[sortp])
                         lines_frac_full[i].set_ydata((lininter / lintot)[sortp])
                     i += 1
+                hide_lines(lines_frac_full[i:])
 
             return lines
 
-- 
2.43.0


From aa5eff4f7bf1b7347d913dd05ec3cec18d006879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 087/100] fix: printsig0analysis with ranges that exceed the
 number of measurements

---
 rt1/rtplots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index d402310..7f373a9 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1805,6 +1805,9 @@ class plot:
         ):
             incs = np.rad2deg(sig0_vals["incs"])
 
+            # there might be less measurements than requested
+            dayrange = min(dayrange, len(sig0_vals["indexes"]))
+
             lines = []
             for day in np.arange(0, dayrange, 1):
                 lines += ax.plot(
-- 
2.43.0


From 4cf29e87e2e320c16acfc6a7de8e51931159e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 088/100] fix: restrict the sliders of printsig0analysis to
 existing measurements if the plot is zoomed

---
 rt1/rtplots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 7f373a9..71f66c7 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2237,10 +2237,13 @@ class plot:
             )
 
             zoomindex = np.where(np.logical_and(indexes > xstart, indexes < xend))[0]
-            slider.valmin = zoomindex[0] - 1
-            slider.valmax = zoomindex[-1] + 1
+            if len(zoomindex) == 0:
+                # keep the boundaries if there are no values in the new area
+                return
+            slider.valmin = zoomindex[0]
+            slider.valmax = zoomindex[-1]
 
-            slider.ax.set_xlim(slider.valmin, slider.valmax)
+            slider.ax.set_xlim(slider.valmin - 1, slider.valmax + 1)
 
         # create the slider
         a_slider = Slider(
-- 
2.43.0


From 8c31a726f377ec9979a8adf8d5c731e614e20e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 089/100] fix: initial label of the selected range of dates in
 printsig0analysis

---
 rt1/rtplots.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 71f66c7..a1ac5da 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2098,6 +2098,14 @@ class plot:
             for line in lines:
                 line.set_data([], [])
 
+        def get_label(day0, dayrange):
+            lday_0 = sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M")
+            if dayrange <= 1:
+                return lday_0
+            day1 = min(day0 + dayrange, len(sig0_vals["indexes"])) - 1
+            lday_1 = sig0_vals["indexes"][day1].strftime("%d. %b %Y %H:%M")
+            return f"{lday_0} - {lday_1}"
+
         # define function to update lines based on slider-input
         def animate(
             day0,
@@ -2112,13 +2120,7 @@ class plot:
             day0 = int(day0)
 
             label.set_position([day0, label.get_position()[1]])
-            if dayrange == 1:
-                label.set_text(sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M"))
-            elif dayrange > 1:
-                lday_0 = sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M")
-                day1 = min(day0 + dayrange, len(sig0_vals["indexes"])) - 1
-                lday_1 = sig0_vals["indexes"][day1].strftime("%d. %b %Y %H:%M")
-                label.set_text(f"{lday_0} - {lday_1}")
+            label.set_text(get_label(day0, dayrange))
 
             maxdays = len(sig0_vals["incs"])
             i = 0
@@ -2272,7 +2274,7 @@ class plot:
         label = slider_ax.text(
             0,
             0.5,
-            f"{sig0_vals['indexes'][0].strftime('%d. %b %Y %H:%M')}",
+            get_label(0, range1),
             horizontalalignment="center",
             verticalalignment="center",
             fontsize=8,
@@ -2326,7 +2328,7 @@ class plot:
             label2 = slider_bx.text(
                 0,
                 0.5,
-                f"{sig0_vals['indexes'][0].strftime('%d. %b %Y %H:%M')}",
+                get_label(0, range2),
                 horizontalalignment="center",
                 verticalalignment="center",
                 fontsize=8,
-- 
2.43.0


From 062e0f09d5e53607885c4c571ea7d8e5f3aea297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 090/100] fix: identify the parameters of the buttons in
 analyzemodel if labels are names of (other) parameters

---
 rt1/rtplots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index a1ac5da..6c35d33 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2584,6 +2584,7 @@ class plot:
         # create the slider for the parameter
         paramslider = {}
         buttonlabels = []
+        label_keys = {}
         for key, val in minparams.items():
             # replace label of key with provided label
             if key in labels:
@@ -2591,6 +2592,7 @@ class plot:
             else:
                 keylabel = key
             buttonlabels += [keylabel]
+            label_keys[keylabel] = key
 
             startval = startparams[key]
 
@@ -2801,9 +2803,7 @@ class plot:
                 return
             # if labels of the buttons have been changed by the labels-argument
             # set the name to the corresponding key (= the actual parameter name)
-            for key, val in labels.items():
-                if label == val:
-                    label = key
+            label = label_keys[label]
 
             # ax.collections.clear()
             if printvariationQ[label] is True:
-- 
2.43.0


From fa96d4b90ecfc22112aa370ba01b4a305f1ea557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 091/100] fix: analyzemodel of fits with columns that are not
 numeric in the dataset

---
 rt1/rtplots.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 6c35d33..23b35d2 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2628,9 +2628,7 @@ class plot:
                 fit.res_df,
                 inc,
                 return_components=False,
-                fixed_param=fit.dataset.groupby(level=0, axis=0).mean()[
-                    fit.fixed_dict.keys()
-                ],
+                fixed_param=fit.dataset[list(fit.fixed_dict)].groupby(level=0).mean(),
             )
             res = dBsig0convert(res, inc, dB, sig0, fit.dB, fit.sig0)
 
-- 
2.43.0


From 0d21bdb9574c21413abf36d2f25790374e92a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 092/100] fix: processing left the log-level, the handlers of
 captured warnings and (if an error occured while finalizing) the
 logging-process behind

---
 rt1/rtprocess.py | 87 +++++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 19034fd..1eb89cf 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -190,7 +190,9 @@ class RTprocess(object):
     @staticmethod
     def _worker_configurer(queue, loglevel=10):
         log.debug("configuring worker... ")
-        log.setLevel(loglevel)
+        # make sure that the required messages are emitted (do NOT suppress messages
+        # with a lower level since they might be addressed to other handlers!)
+        log.setLevel(min(log.getEffectiveLevel(), loglevel))
         h = logging.handlers.QueueHandler(queue)  # Just the one handler needed
         h.setLevel(loglevel)
         h.name = "rtprocessing_queuehandler"
@@ -198,9 +200,35 @@ class RTprocess(object):
 
         logging.captureWarnings(True)
         warnings_logger = logging.getLogger("py.warnings")
-        warnings_logger
         warnings_logger.addHandler(h)
 
+    @staticmethod
+    def _stop_logging(queue, listener, loglevel):
+        # undo the changes of "_worker_configurer" and stop the listener-process
+
+        # turn off capturing warnings
+        logging.captureWarnings(False)
+
+        # remove any remaining queue-handlers after the processing is done
+        handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
+        for h in handlers.get("rtprocessing_queuehandler", []):
+            # close the handler (removing it does not close it!)
+            h.close()
+            # remove the handler from the logs
+            log.removeHandler(h)
+            logging.getLogger("py.warnings").removeHandler(h)
+
+        # reset the log-level
+        log.setLevel(loglevel)
+
+        if queue is not None:
+            # tell the queue to stop
+            queue.put_nowait(None)
+
+            # stop the listener process
+            if listener is not None and listener.is_alive():
+                listener.join()
+
     def override_config(self, override=True, **kwargs):
         """
         set the init_kwargs to change parts of the specifications provided in the
@@ -861,7 +889,7 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
-        queue = None
+        queue, listener, initial_loglevel = None, None, log.level
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -956,28 +984,12 @@ class RTprocess(object):
             raise err
 
         finally:
-            if hasattr(self, "proc_cls"):
-                if hasattr(self.proc_cls, "finalizer"):
-                    self.proc_cls.finalizer()
-
-            # turn off capturing warnings
-            logging.captureWarnings(False)
-
-            if queue is not None:
-                # tell the queue to stop
-                queue.put_nowait(None)
-
-                # stop the listener process
-                listener.join()
-
-                # remove any remaining file-handler and queue-handlers after
-                # the processing is done
-                handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
-                for h in handlers.get("rtprocessing_queuehandler", []):
-                    # close the handler (removing it does not close it!)
-                    h.close()
-                    # remove the file-handler from the log
-                    log.handlers.remove(h)
+            try:
+                if hasattr(self, "proc_cls"):
+                    if hasattr(self.proc_cls, "finalizer"):
+                        self.proc_cls.finalizer()
+            finally:
+                self._stop_logging(queue, listener, initial_loglevel)
 
     def run_finaloutput(
         self,
@@ -1064,7 +1076,7 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
-        queue = None
+        queue, listener, initial_loglevel = None, None, log.level
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1141,25 +1153,10 @@ class RTprocess(object):
             raise err
 
         finally:
-            self._close_useres()
-
-            # turn off capturing warnings
-            logging.captureWarnings(False)
-
-            if queue is not None:
-                # tell the queue to stop
-                queue.put_nowait(None)
-
-                # stop the listener process
-                listener.join()
-
-                # remove any remaining file-and queue-handlers after processing is done
-                handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
-                for h in handlers.get("rtprocessing_queuehandler", []):
-                    # close the handler (removing it does not close it!)
-                    h.close()
-                    # remove the file-handler from the log
-                    log.handlers.remove(h)
+            try:
+                self._close_useres()
+            finally:
+                self._stop_logging(queue, listener, initial_loglevel)
 
     def _run_finalout(
         self,
-- 
2.43.0


From e468f7175e8ee6fc1222c639825eefbd049ec2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 093/100] fix: the signal-handlers of the processing remained
 active after the processing (a terminated process did not stop any more)

---
 rt1/_rtprocess_writer.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 1984be6..c697c1d 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -539,19 +539,29 @@ class RT1_processor(object):
     @classmethod
     @contextmanager
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
-        w = cls(*args, **kwargs)
-        manager = w._setup_manager()
-        # (the processes might not all have been started if an exception is raised)
-        writer, combiner = [], []
+        # remember the signal-handlers (they are overwritten in "__init__")
+        handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)}
         try:
-            writer = w._start_writer_process(init_func=init_func, init_args=init_args)
-            combiner = w._start_combiner_process(
-                init_func=init_func, init_args=init_args
-            )
+            w = cls(*args, **kwargs)
+            manager = w._setup_manager()
+            # (the processes might not all have been started if an exception is raised)
+            writer, combiner = [], []
+            try:
+                writer = w._start_writer_process(
+                    init_func=init_func, init_args=init_args
+                )
+                combiner = w._start_combiner_process(
+                    init_func=init_func, init_args=init_args
+                )
 
-            yield w
+                yield w
+            finally:
+                w.stop(writer, combiner, manager)
         finally:
-            w.stop(writer, combiner, manager)
+            # restore the initial signal-handlers
+            for s, handler in handlers.items():
+                if handler is not None:
+                    signal.signal(s, handler)
 
     def start_print_thread(self):
         # start the timer for estimating the processing-time
-- 
2.43.0


From 280dbdd4b95b6f01d40cd4c8eb5ae48421644bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 094/100] fix: results-folders whose names contain a dot were
 shown with a cut-off name (and hid each other)

---
 rt1/rtresults.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 9f2674f..bd6a033 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -151,12 +151,12 @@ class RTresults(object):
 
     def _addresult(self, path):
         if self._check_folderstructure(path):
-            self._paths[path.stem] = path
-            log.info(f"... adding result {path.stem}")
+            self._paths[path.name] = path
+            log.info(f"... adding result {path.name}")
             setattr(
                 self,
-                path.stem,
-                self._RT1_fitresult(path.stem, path, self._use_dumps),
+                path.name,
+                self._RT1_fitresult(path.name, path, self._use_dumps),
             )
 
     class _RT1_fitresult(object):
-- 
2.43.0


From cdaa0ab3416b53bd54d271ad6ee02319e2778463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 095/100] fix: rescan() kept the old list of dump-files (random
 fits were drawn from files that do not exist any more)

---
 rt1/rtresults.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index bd6a033..eb73465 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -200,6 +200,8 @@ class RTresults(object):
                 self._use_dumps = use_dumps
             self._nc_paths = self._get_results(".nc")
             self._hdf_paths = self._get_results(".h5")
+            # (the list of dump-files is re-created if it is needed)
+            self.__dict__.pop("_dump_file_list", None)
             self._reset_fit_db_cache()
 
         @property
-- 
2.43.0


From 6261741e683e65c4477e8779e6aa2b5441ad5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 096/100] fix: iloc_level() ignored negative positions and
 counted index-values that do not appear in the data

---
 rt1/rtresults.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index eb73465..ece2000 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -950,13 +950,19 @@ def _sanitize_index(df, idx):
     except TypeError:
         idx = [idx]
 
+    # use only values that actually appear (e.g. if the dataframe has been filtered)
+    levels = [
+        level[np.unique(codes[codes >= 0])]
+        for level, codes in zip(df.index.levels, df.index.codes)
+    ]
+
     for level, i in enumerate(idx):
         if i is None:
-            yield df.index.levels[level][slice(None)]
+            yield levels[level][slice(None)]
         elif isinstance(i, int):
-            yield df.index.levels[level][slice(i, i + 1)]
+            yield levels[level][slice(i, (i + 1) or None)]
         else:
-            yield df.index.levels[level][i]
+            yield levels[level][i]
 
 
 def iloc_level(df, idx):
-- 
2.43.0


From 1947708c72bb116d7c2c422e75f6cb699a218aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 097/100] fix: sites with an own "feature_id" were stored under
 another name (and therefore processed and stored again by a second run)

---
 rt1/processing_config.py |  1 +
 rt1/rtprocess.py         | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 898b337..532e4ab 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -95,6 +95,7 @@ class rt1_processing_config(object):
         -------
         feature_id : str
             the ID that will be assigned to the fits-object (e.g. `fit.ID`)
+            (and used as "ID" of the site in the HDF-store)
         filename : str
             the file-name that will be used to save the pickle dump-files
         """
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 1eb89cf..de9c84e 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -526,7 +526,7 @@ class RTprocess(object):
                 # set the aux_data (always, to avoid keeping the one of previous sites)
                 self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
-                self.parent_fit.set_reader_arg(reader_arg)
+                self.parent_fit.set_reader_arg(self._get_stored_reader_arg(reader_arg))
                 # set ID for all configs
                 self.parent_fit.set_ID(
                     self.proc_cls.get_names_ids(reader_arg)["feature_id"]
@@ -556,7 +556,7 @@ class RTprocess(object):
                     ID=self.proc_cls.get_names_ids(reader_arg)["feature_id"],
                 )
                 # append reader_arg
-                fit.reader_arg = reader_arg
+                fit.reader_arg = self._get_stored_reader_arg(reader_arg)
 
                 fit.performfit()
 
@@ -806,6 +806,15 @@ class RTprocess(object):
         else:
             return str(ID)
 
+    def _get_stored_reader_arg(self, reader_arg):
+        # use the "feature_id" as ID of the stored results
+        # (the "ID" of the reader_arg is used to identify sites in the HDF-store)
+        ID = self.proc_cls.get_names_ids(reader_arg)["feature_id"]
+
+        if "ID" in reader_arg and str(reader_arg["ID"]) == str(ID):
+            return reader_arg
+        return {**reader_arg, "ID": ID}
+
     def run_processing(
         self,
         ncpu=1,
-- 
2.43.0


From 11347ab8b2b0a19ddc6efd20d99dad7c42e904ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:24 +0000
Subject: [PATCH 098/100] fix: additional arguments for each site were assigned
 to wrong sites if only some of the sites had to be processed

---
 rt1/_rtprocess_writer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index c697c1d..58a171c 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -13,7 +13,7 @@ from pathlib import Path
 
 from contextlib import contextmanager
 from collections import defaultdict
-from itertools import count
+from itertools import compress, count
 import signal
 
 from . import log
@@ -316,6 +316,9 @@ class RT1_processor(object):
 
         """
 
+        # indicators if the individual args need to be processed
+        self._process_args_Q = [True] * len(self.arg_list)
+
         if Path(self.dst_path).exists():
             log.progress("evaluating list of IDs to process...")
             if get_ID is None:
@@ -338,6 +341,7 @@ class RT1_processor(object):
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
+                self._process_args_Q = [not q for q in process_Q]
 
                 # a counter that yields unique IDs that are not yet assigned
                 # in the HDF store
@@ -603,7 +607,8 @@ class RT1_processor(object):
             The default is None.
         starmap_args : iterable, optional
             a list of additional arguments passed to the evaluation of
-            "process_func". The default is None.
+            "process_func" (e.g. one iterable with values for each element of
+            "arg_list" for each argument). The default is None.
 
         Returns
         -------
@@ -624,6 +629,8 @@ class RT1_processor(object):
         assert self.arg_list is not None, 'you must provide "arg_list"'
 
         self._check_IDs(get_ID=ID_getter)
+        # use only the arguments of the IDs that need to be processed
+        starmap_args = [compress(arg, self._process_args_Q) for arg in starmap_args]
         self.p_max.value = len(self.args_to_process)
 
         if self.p_max.value == 0:
-- 
2.43.0


From be4fd5ea7c482efdfca19e30e9c0e866a1cd5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 099/100] fix: warnings that were captured by the user before
 the processing were not captured any more after it

---
 rt1/rtprocess.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index de9c84e..99c26bf 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -203,11 +203,18 @@ class RTprocess(object):
         warnings_logger.addHandler(h)
 
     @staticmethod
-    def _stop_logging(queue, listener, loglevel):
+    def _get_log_state():
+        # the current log-level and an indicator if warnings are already captured
+        captured = getattr(logging, "_warnings_showwarning", None) is not None
+        return log.level, captured
+
+    @staticmethod
+    def _stop_logging(queue, listener, initial_log):
         # undo the changes of "_worker_configurer" and stop the listener-process
+        loglevel, captured = initial_log
 
-        # turn off capturing warnings
-        logging.captureWarnings(False)
+        # turn off capturing warnings (if they have not been captured before)
+        logging.captureWarnings(captured)
 
         # remove any remaining queue-handlers after the processing is done
         handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
@@ -898,7 +905,7 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
-        queue, listener, initial_loglevel = None, None, log.level
+        queue, listener, initial_log = None, None, self._get_log_state()
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -998,7 +1005,7 @@ class RTprocess(object):
                     if hasattr(self.proc_cls, "finalizer"):
                         self.proc_cls.finalizer()
             finally:
-                self._stop_logging(queue, listener, initial_loglevel)
+                self._stop_logging(queue, listener, initial_log)
 
     def run_finaloutput(
         self,
@@ -1085,7 +1092,7 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
-        queue, listener, initial_loglevel = None, None, log.level
+        queue, listener, initial_log = None, None, self._get_log_state()
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1165,7 +1172,7 @@ class RTprocess(object):
             try:
                 self._close_useres()
             finally:
-                self._stop_logging(queue, listener, initial_loglevel)
+                self._stop_logging(queue, listener, initial_log)
 
     def _run_finalout(
         self,
-- 
2.43.0


From 77d4b1726b28dbf17e358e23c984b3281b8f14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 100/100] fix: scattering functions shared (and exposed) the
 default list of their parameter a: changing it in place changed all other
 functions

---
 rt1/surface.py | 6 +++---
 rt1/volume.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index 172bba7..91cff97 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -651,7 +651,7 @@ class CosineLobe(Surface):
             "Error: Cosine lobe power needs " + "to be an integer!"
         )
         assert i >= 0, "ERROR: Power of Cosine-Lobe needs to be greater than 0"
-        self.a = a
+        self.a = list(a)
         assert isinstance(self.a, list), (
             "Error: Generalization-parameter " + "needs to be a list"
         )
@@ -745,7 +745,7 @@ class HenyeyGreenstein(Surface):
         self.ncoefs = ncoefs
         assert self.ncoefs > 0
 
-        self.a = a
+        self.a = list(a)
         assert isinstance(self.a, list), (
             "Error: Generalization-parameter " + "needs to be a list"
         )
@@ -811,7 +811,7 @@ class HG_nadirnorm(Surface):
         self.ncoefs = ncoefs
         assert self.ncoefs > 0
 
-        self.a = a
+        self.a = list(a)
         assert isinstance(self.a, list), (
             "Error: Generalization-parameter " + "needs to be a list"
         )
diff --git a/rt1/volume.py b/rt1/volume.py
index 5191b43..e53d672 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -618,7 +618,7 @@ class Rayleigh(Volume):
 
     def __init__(self, a=[-1.0, 1.0, 1.0], **kwargs):
         super(Rayleigh, self).__init__(**kwargs)
-        self.a = a
+        self.a = list(a)
 
     @property
     def ncoefs(self):
@@ -689,7 +689,7 @@ class HenyeyGreenstein(Volume):
         assert ncoefs is not None, "Number of coeffs needs to be specified"
         super(HenyeyGreenstein, self).__init__(**kwargs)
         self.t = t
-        self.a = a
+        self.a = list(a)
         assert isinstance(self.a, list), (
             "Error: Generalization-parameter " + "needs to be a list"
         )
@@ -779,7 +779,7 @@ class HGRayleigh(Volume):
         assert ncoefs is not None, "Number of coeffs needs to be specified"
         super(HGRayleigh, self).__init__(**kwargs)
         self.t = t
-        self.a = a
+        self.a = list(a)
         assert isinstance(self.a, list), (
             "Error: Generalization-parameter " + "needs to be a list"
         )
-- 
2.43.0

