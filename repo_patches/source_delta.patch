From 3a732111929f68be1fe4112fb81ab3e99781a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 001/131] fix: import batch and BS-DISP modules without the
 compiled esat_rust module

SA falls back to the python algorithms when esat_rust is not available, but the
modules that only use its clear_screen helper failed to import.
---
 esat/error/bs_disp.py  | 7 ++++++-
 esat/model/batch_sa.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..0b6ebed 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -15,7 +15,12 @@ from esat.model.sa import SA
 from esat.error.bootstrap import Bootstrap
 from esat.error.displacement import Displacement
 from esat.utils import np_encoder
-from esat_rust import clear_screen
+try:
+    from esat_rust import clear_screen
+except ModuleNotFoundError:
+    # Without the compiled module the models run in python, see SA, and there is no console output to clear.
+    def clear_screen():
+        pass
 
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..4990ff7 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -12,7 +12,12 @@ import multiprocessing as mp
 from logging.handlers import QueueHandler, QueueListener
 from esat.model.sa import SA
 from esat.utils import memory_estimate
-from esat_rust import clear_screen
+try:
+    from esat_rust import clear_screen
+except ModuleNotFoundError:
+    # Without the compiled module the models run in python, see SA, and there is no console output to clear.
+    def clear_screen():
+        pass
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
-- 
2.43.0


From bc34f89d3938ff0f98a80c18602a569896f814ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 002/131] fix: ws-nmf update accepts hold_h

SA.train passes hold_h to the update step of both algorithms, the python ws-nmf
update raised a TypeError on every call.
---
 esat/model/ws_nmf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..5c09388 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False,
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -64,6 +67,8 @@ class WSNMF:
             _w = np.matmul(_w_n, _w_di)
             _W.append(_w)
         W = np.array(_W)
+        if hold_h:
+            return W, H
 
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
-- 
2.43.0


From 7b699bd06c07c24f310a48e88d5e99107ad3f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 003/131] fix: ws-nmf profiles become NaN when the input
 contains negative values

The numerator and denominator of the H update were negative for negative input
values, the square root of their ratio was NaN. The update is unchanged for
non-negative input.
---
 esat/model/ws_nmf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 5c09388..1129f13 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -81,8 +81,11 @@ class WSNMF:
             uv_j = uV[:, j]
             uv_j = uv_j.reshape(len(uv_j), 1)
 
-            n1 = np.matmul(uv_j.T, W_p)[0]
-            d1 = np.matmul(uv_j.T, W_n)[0]
+            # negative input values contribute to the opposite term, keeping both terms non-negative
+            uv_p = np.maximum(uv_j, 0.0)
+            uv_n = np.maximum(-uv_j, 0.0)
+            n1 = (np.matmul(uv_p.T, W_p) + np.matmul(uv_n.T, W_n))[0]
+            d1 = (np.matmul(uv_p.T, W_n) + np.matmul(uv_n.T, W_p))[0]
 
             n2a = np.matmul(W_n.T, wej_d)
             n2b = np.matmul(n2a, W_n)
-- 
2.43.0


From 37f89ebeb1c04ed24fcdc0a6266a505f0c7f997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 004/131] fix: initialize W and H when a feature or sample mean
 is negative

ws-nmf allows negative input values, the square root of a negative mean made the
initial matrices NaN and the model unusable.
---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..8225230 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -275,7 +275,7 @@ class SA:
             VH_mean = np.mean(self.V, axis=0)
             VW_mean = np.mean(self.V, axis=1)
             if H is None:
-                V_avg = np.sqrt(VH_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VH_mean) / self.factors)
                 H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
             if "update" in init_method.lower():
                 if self.method == "ls-nmf":
@@ -283,7 +283,7 @@ class SA:
                 else:
                     W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
             if W is None:
-                V_avg = np.sqrt(VW_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VW_mean) / self.factors)
                 V_avg = V_avg.reshape(len(V_avg), 1)
                 W = np.multiply(V_avg, self.rng.standard_normal(size=(self.m, self.factors)).astype(self.V.dtype,
                                                                                                     copy=False))
-- 
2.43.0


From 90ba2d8b8cc1d9bce5936cc91287ea31f08fd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 005/131] fix: keep the provided factor profiles when H is
 partially initialized

The randomly sampled profiles contain negative values when the profiles are scaled
by the column sums, a negative sum inverted the provided profiles which were then
replaced by 1e-12.
---
 esat/model/sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 8225230..597bbf9 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -295,6 +295,7 @@ class SA:
                              f"of factors.")
 
         if prior_H is not None:
+            H = np.where(H <= 0.0, 1e-12, H)
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
             H = H / H.sum(axis=0)
-- 
2.43.0


From 8cf5d60accce358fa06714f2cac31fc7261ecab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 006/131] fix: SA.initialize does not modify the H matrix
 provided by the user

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 597bbf9..4c33cf9 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -299,7 +299,7 @@ class SA:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
             H = H / H.sum(axis=0)
-        H[H <= 0.0] = 1e-12
+        H = np.where(H <= 0.0, 1e-12, H)
         self.H = H
         self.W = W
         self.init_method = init_method
-- 
2.43.0


From 45fbd6a4d9d06427df946848d893e39f14e49bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 007/131] fix: reset the convergence results at the start of
 SA.train

Training a model again reported the convergence of the previous run, and the
number of steps accumulated.
---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 4c33cf9..c71efa2 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -394,6 +394,8 @@ class SA:
             self.update_step = types.MethodType(lcls['update'], self)
 
         converged = False
+        self.converged = False
+        self.converge_steps = 0
         q_list = []
 
         if self.optimized:
-- 
2.43.0


From 770c7c6918609a7223e4aa94b0f8f229b87f63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 008/131] fix: ls-nmf update of a feature or sample which
 contains only zeros

The profile (contribution) of an all zero feature (sample) is zero after the first
update and NaN (0/0) in the following one, stopping the training of the model.
---
 esat/model/ls_nmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/ls_nmf.py b/esat/model/ls_nmf.py
index 05e5588..37f078f 100644
--- a/esat/model/ls_nmf.py
+++ b/esat/model/ls_nmf.py
@@ -41,11 +41,11 @@ class LSNMF:
             WH = np.matmul(W, H)
             H_num = np.matmul(W.T, WeV)
             H_den = np.matmul(W.T, np.multiply(We, WH))
-            H = np.multiply(H, np.divide(H_num, H_den))
+            H = np.multiply(H, np.divide(H_num, H_den, out=np.zeros_like(H_den), where=H_den != 0.0))
 
         WH = np.matmul(W, H)
         W_num = np.matmul(WeV, H.T)
         W_den = np.matmul(np.multiply(We, WH), H.T)
-        W = np.multiply(W, np.divide(W_num, W_den))
+        W = np.multiply(W, np.divide(W_num, W_den, out=np.zeros_like(W_den), where=W_den != 0.0))
 
         return W, H
-- 
2.43.0


From e1ffa16ada38449eaa6b8f44e0f536987d37d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 009/131] fix: sequential batch training uses the per-model
 factors and delay_h as the parallel one

---
 esat/model/batch_sa.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 4990ff7..358443e 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -297,14 +297,22 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None:
+                            self.H = np.array(self.H)
+                            i_H = self.H[model_i - 1] if len(self.H.shape) == 3 else self.H
+                        i_W = self.W
+                        if self.W is not None:
+                            self.W = np.array(self.W)
+                            i_W = self.W[model_i - 1] if len(self.W.shape) == 3 else self.W
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
-                                        progress_callback=self.progress_callback)
+                                        delay_h=self.delay_h, progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-- 
2.43.0


From ab84c42dd9a2192fbdebd6e6811731fb495db203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 010/131] fix: report a failed batch when no model has a valid
 loss value

---
 esat/model/batch_sa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 358443e..87829c0 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -333,6 +333,9 @@ class BatchSA:
                 logger.info(f"Batch training completed in {self.runtime} seconds.")
 
                 best_model = best_model - 1
+                if best_model < 0:
+                    logger.error("None of the SA models in the batch has a valid loss value.")
+                    return False, "Error: None of the SA models has a valid loss value"
                 if self.verbose:
                     logger.info(
                         "------------------------------------------------ Batch Results ------------------------------------------------")
-- 
2.43.0


From c7e0b5f4ad9559f54a35ea060767d99c005eb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 011/131] fix: save SA results to csv files when no header is
 provided

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index c71efa2..7a94e0c 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -507,13 +507,13 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = ""
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
             header = ",".join(header)
         else:
-            header = []
+            header = ""
         output_directory = Path(output_directory)
         if not output_directory.is_absolute():
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
-- 
2.43.0


From e40ec1ed845f4a43ee901e771e06ec1ecd45cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 012/131] fix: loading a damaged pickle file returns None for
 every type of unpickling error

---
 esat/error/bootstrap.py        | 2 +-
 esat/error/bs_disp.py          | 2 +-
 esat/error/displacement.py     | 2 +-
 esat/model/batch_sa.py         | 2 +-
 esat/model/sa.py               | 2 +-
 esat/rotational/constrained.py | 2 +-
 eval/simulator.py              | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..ab5f3e3 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -821,7 +821,7 @@ class Bootstrap:
                 with open(file_path, "rb") as pfile:
                     bs = pickle.load(pfile)
                     return bs
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Bootstrap pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 0b6ebed..d85d525 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -477,7 +477,7 @@ class BSDISP:
                 with open(file_path, "rb") as pfile:
                     bsdisp = pickle.load(pfile)
                     return bsdisp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BS-DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..514ed05 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -715,7 +715,7 @@ class Displacement:
                 with open(file_path, "rb") as pfile:
                     disp = pickle.load(pfile)
                     return disp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 87829c0..f342fd4 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -480,7 +480,7 @@ class BatchSA:
                 with open(file_path, "rb") as pfile:
                     bsa = pickle.load(pfile)
                     return bsa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BatchSA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/sa.py b/esat/model/sa.py
index 7a94e0c..c1d6471 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -581,7 +581,7 @@ class SA:
                 with open(file_path, "rb") as pfile:
                     sa = pickle.load(pfile)
                     return sa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load SA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..a45646e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1208,7 +1208,7 @@ class ConstrainedModel:
                 with open(file_path, "rb") as pfile:
                     c_solution = pickle.load(pfile)
                     return c_solution
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load constrained solution pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..603170a 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -583,7 +583,7 @@ class Simulator:
                 with open(file_path, "rb") as pfile:
                     sim = pickle.load(pfile)
                     return sim
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Simulator pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
-- 
2.43.0


From 9f8f3b9e5f44cf4fbf5ed7545fcb9d6711490498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 013/131] fix: pickle the constrained model instance so that it
 can be reloaded, and return the saved path

---
 esat/rotational/constrained.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a45646e..39eef1c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1167,22 +1167,30 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            self.constrained_model.save(
-                model_name=model_name,
-                output_directory=output_directory,
-                pickle_model=pickle_model,
-                header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
             metadata = self.metadata
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
             metadata["expressions"] = self.expressions
             metadata["softness"] = self.softness
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                with open(file_path, "wb") as save_file:
+                    pickle.dump(self, save_file)
+                    logger.info(f"Constrained model saved to pickle file: {file_path}")
+            else:
+                file_path = self.constrained_model.save(
+                    model_name=model_name,
+                    output_directory=output_directory,
+                    pickle_model=False,
+                    header=self.dh.features)
 
             with open(meta_file, "w") as mfile:
                 json.dump(metadata, mfile, default=np_encoder)
                 logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return file_path
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From bfae1bfd71811003630d283c673d8904d11a7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 014/131] fix: BS-DISP save to files returns the output
 directory instead of failing

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index d85d525..5d7ccbd 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -437,6 +437,7 @@ class BSDISP:
                     pickle.dump(self, save_file)
                     logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From 80b4fa3f2bb6507e5ba9c11e6baa04a5bc30319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 015/131] fix: parallel DISP results do not depend on the order
 in which the tasks finish

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 514ed05..f4f3e6f 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -339,7 +339,7 @@ class Displacement:
         with mp.Pool(processes=self.cores) as pool:
             results = []
             with tqdm(total=len(parallel_args), desc="Checking increasing value for factors", position=0, leave=False, ascii=True) as pbar:
-                for i in pool.imap_unordered(self._increase_disp_p, parallel_args):
+                for i in pool.imap(self._increase_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
         for factor_i, feature_j, i_results in results:
@@ -495,7 +495,7 @@ class Displacement:
         with mp.Pool(processes=self.cores) as pool:
             results = []
             with tqdm(total=len(parallel_args), desc="Checking decreasing value for factors", position=0, leave=False, ascii=True) as pbar:
-                for i in pool.imap_unordered(self._decrease_disp_p, parallel_args):
+                for i in pool.imap(self._decrease_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
         for factor_i, feature_j, i_results in results:
-- 
2.43.0


From d28b98cd514d6c0971fac2b57a34f3ac915c8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 016/131] fix: order of the parallel bootstrap results is the
 order of the runs

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index ab5f3e3..edd285a 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -411,7 +411,7 @@ class Bootstrap:
             results = []
             with mp.Pool(processes=self.cpus) as pool:
                 with tqdm(total=len(p_args), desc="Bootstrap resampling, training and mapping") as pbar:
-                    for i in pool.imap_unordered(self._p_train, p_args):
+                    for i in pool.imap(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
             for r in results:
-- 
2.43.0


From 823a50814b0647f2c1e8469241ba2864c333df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 017/131] fix: label the rows of the DISP and BS-DISP swap
 tables with their own dQ value

---
 esat/error/bs_disp.py      | 2 +-
 esat/error/displacement.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 5d7ccbd..c8824aa 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -286,7 +286,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index f4f3e6f..b356c23 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,7 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
 
@@ -677,7 +677,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
+                    dq_list = list(self.dQmax)
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
-- 
2.43.0


From 3724607a32c61a6f06b6256dc405f0a5b9e8d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 018/131] fix: BS-DISP runs with parallel=True

---
 esat/error/bs_disp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index c8824aa..1f58c09 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -178,7 +178,7 @@ class BSDISP:
             with mp.Pool(processes=cpus) as pool:
                 results = []
                 with tqdm(total=len(p_args), desc="BS-DISP - Displacement Stage", position=0, leave=False) as pbar:
-                    for i in pool.imap_unordered(BSDISP._parallel_disp, p_args):
+                    for i in pool.imap(BSDISP._parallel_disp, p_args):
                         pbar.update(1)
                         results.append(i)
 
@@ -206,7 +206,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From 0540df8b0f5304645b1343544a6e39b240ea3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 019/131] fix: BS-DISP results include every bootstrap run and
 the lower profile limits

---
 esat/error/bs_disp.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 1f58c09..88e292a 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -224,20 +224,18 @@ class BSDISP:
         """
         key0 = list(self.disp_results.keys())[0]
         disp_result = self.disp_results[key0].compiled_results
-        profiles = disp_result["profile"]
         profiles_max = disp_result["profile_max"]
         profiles_min = disp_result["profile_min"]
-        conc = disp_result["conc"]
         conc_max = disp_result["conc_max"]
         conc_min = disp_result["conc_min"]
         dQ_drop = disp_result["dQ_drop"]
-        disp_profiles = [profiles]
-        disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        disp_profiles = []
+        disp_conc = []
+        for result_i in self.disp_results.keys():
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
-- 
2.43.0


From 1d565ee3e5562fc4992b745d7bf1a0f30cf25aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 020/131] fix: block bootstrap can select every block,
 including the last one, and block size is an integer

---
 esat/error/bootstrap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index edd285a..73c8285 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,8 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N//2}")
+            self.block_size = N//2
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
@@ -163,12 +163,12 @@ class Bootstrap:
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
-                index_i = index_blocks[rng_i]
+                rng_i = int(rng.integers(low=0, high=int(M), size=1)[0])
+                index_i = list(index_blocks[rng_i])
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From ab2bcbf583e7d4cd392749d26360eb97a89aa131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 021/131] fix: bootstrap statistics do not modify the bootstrap
 and base models

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 73c8285..ff76d2b 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -560,7 +560,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = np.array(j_v["model"].H[i])
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -625,7 +625,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = np.array(self.base_H[factor])
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From 4ec44e9a2a7cf1327fd116d886a5fd1d74765438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 022/131] fix: DISP search uses the max_search parameter

---
 esat/error/displacement.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b356c23..7b2f6a6 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -308,7 +308,7 @@ class Displacement:
                         search_i += 1
                         if dQ > max_dQ:
                             max_dQ = dQ
-                        if search_i >= max_high_search:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -399,7 +399,7 @@ class Displacement:
                 search_i += 1
                 if dQ > max_dQ:
                     max_dQ = dQ
-                if search_i >= max_high_search:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
@@ -442,7 +442,6 @@ class Displacement:
                     max_dQ = 0
                     search_i = 0
                     p_mod = 0.0
-                    max_search_i = 50
                     while not value_found:
                         new_H =  copy.copy(self.H)
                         new_value = self.H[factor_i, feature_j] * modifier
@@ -463,7 +462,7 @@ class Displacement:
                         if dQ > max_dQ:
                             max_dQ = dQ
                         p_mod = modifier
-                        if search_i >= max_search_i:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -518,7 +517,6 @@ class Displacement:
             max_dQ = 0
             search_i = 0
             p_mod = 0.0
-            max_search_i = 50
             while not value_found:
                 new_H = copy.copy(self.H)
                 new_value = self.H[factor_i, feature_j] * modifier
@@ -539,7 +537,7 @@ class Displacement:
                 if dQ > max_dQ:
                     max_dQ = dQ
                 p_mod = modifier
-                if search_i >= max_search_i:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
-- 
2.43.0


From e3c0442e213f5c684e555455a579b5b383010dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 023/131] fix: write the excluded features to the DISP metadata
 file

---
 esat/error/displacement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 7b2f6a6..4c31f24 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -92,7 +92,7 @@ class Displacement:
         self.metadata = {
             "selected_model": self.selected_model,
             "features": self.features,
-            "excluded_features": self.excluded_features,
+            "excluded_features": sorted(self.excluded_features),
             "max_search": self.max_search,
             "threshold_dQ": self.threshold_dQ
         }
-- 
2.43.0


From afa55055c27faea2b4f36bacddb126fe4557afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 024/131] fix: Bootstrap.save returns the path of the pickle
 file

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index ff76d2b..49f6ec6 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From 220577494adc8a1cdfc742fe8f13e93a2396ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 025/131] fix: check and label sample constraints by their
 (sample, factor) index

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 39eef1c..bf2cb4c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -224,11 +224,11 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From 79a27a76fc1be72980aa58b9a454477426be6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 026/131] fix: add_constraint refuses an unknown constraint
 type or target

---
 esat/rotational/constrained.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index bf2cb4c..3c234bf 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -209,6 +209,13 @@ class ConstrainedModel:
            True if the constraint was added or False if the constraint wasn't valid and is not added.
         """
         constraint_label = ""
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types: {Constraint.type_list}")
+            return False
+        if target not in ('feature', 'sample'):
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets: feature, sample.")
+            return False
         if target == 'feature':
             if index[0] >= self.base_model.factors or index[0] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
-- 
2.43.0


From dda9570b9fedd1a17f52b29762af88aa64e5e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 027/131] fix: define limits moves a value to the exceeded
 limit and leaves values inside the limits alone

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 3c234bf..b68fd9b 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -355,9 +355,9 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
+                    new_value = constraint.target_values[1] - current_value
                 else:
-                    new_value = current_value
+                    new_value = 0.0
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From a8d1e4c2d394f4c087409554de021fcf365f1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 028/131] fix: pull constraints use the allowed dQ instead of
 stopping anywhere up to 100 below it

---
 esat/rotational/constrained.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b68fd9b..956ffa7 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -612,7 +612,7 @@ class ConstrainedModel:
             if dQ > dQ_limit:
                 low_mod = modifier
                 modifier = (modifier + high_mod) / 2
-            elif dQ < dQ_limit - 1e2:
+            elif dQ < dQ_limit - 1e-2:
                 high_mod = modifier
                 modifier = (low_mod + modifier) / 2
             else:
@@ -671,7 +671,7 @@ class ConstrainedModel:
             if dQ > dQ_limit:
                 high_modifier = modifier
                 modifier = (modifier + low_modifier) / 2.0
-            elif dQ < dQ_limit - 1e2:
+            elif dQ < dQ_limit - 1e-2:
                 low_modifier = modifier
                 modifier = (high_modifier + modifier) / 2.0
             else:
@@ -724,7 +724,7 @@ class ConstrainedModel:
             if dQ > dQ_limit:
                 low_value = mid_value
                 mid_value = (mid_value + high_value) / 2
-            elif dQ < dQ_limit - 1e2:
+            elif dQ < dQ_limit - 1e-2:
                 high_value = mid_value
                 mid_value = (low_value + mid_value) / 2
             else:
-- 
2.43.0


From 53989df740c27a43c221927953dbb3da190e41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 029/131] fix: pull to value respects the dQ limit when pulling
 upwards

---
 esat/rotational/constrained.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 956ffa7..5a61fdd 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -697,14 +697,11 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # search between the current value (dQ of zero) and the target value (dQ above the limit)
+        near_value = current_value
+        far_value = target_value
 
-        mid_value = (high_value + low_value) / 2
+        mid_value = (near_value + far_value) / 2
 
         value_found = False
         search_i = 0
@@ -722,11 +719,11 @@ class ConstrainedModel:
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
             if dQ > dQ_limit:
-                low_value = mid_value
-                mid_value = (mid_value + high_value) / 2
+                far_value = mid_value
+                mid_value = (mid_value + near_value) / 2
             elif dQ < dQ_limit - 1e-2:
-                high_value = mid_value
-                mid_value = (low_value + mid_value) / 2
+                near_value = mid_value
+                mid_value = (far_value + mid_value) / 2
             else:
                 value_found = True
             if np.abs(p_value - mid_value) <= 1e-8:  # small value, considered zero. Or no change in the modifier.
-- 
2.43.0


From 44f17c8beeee5a174334688187c6a9c4fd179df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 030/131] fix: constrained training no longer fails when the
 factor elements of the expressions are zero

---
 esat/rotational/constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 5a61fdd..b4b11d3 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -398,6 +398,9 @@ class ConstrainedModel:
                 exp_B[i] = exp_b
 
             # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
+            if np.max(exp_B) <= 1e-8:
+                # all factor elements of the expressions are zero, there is nothing to pull.
+                return np.zeros(shape=iW.shape), np.zeros(shape=iH.shape)
             exp_bounds = (1e-8, np.max(exp_B))
             exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
 
-- 
2.43.0


From 324e6c51543d111fe65598e94ff68b82e0613ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 031/131] fix: evaluate_expressions reads sample elements at
 (sample, factor)

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b4b11d3..621093b 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -857,10 +857,11 @@ class ConstrainedModel:
                 ele_index = element_details['index']
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
+                w_index = (ele_index[1], ele_index[0])
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
-                    else self.constrained_model.W[ele_index]
+                    else self.constrained_model.W[w_index]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-                    ele_index]
+                    w_index]
                 exp_element[ele] = (ele_index, element_details['type'], np.round(base_value,4), np.round(ele_value,4))
                 exp_values.append(ele_value * ele_coef)
                 base_values.append(base_value * ele_coef)
-- 
2.43.0


From a78a0732e3b72c3f4099ec57be864a10ac335d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 032/131] fix: plot_Q main shows the sum of true and aux loss,
 constrained profile elements are highlighted

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 621093b..a44dbc9 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -785,7 +785,7 @@ class ConstrainedModel:
         elif Qtype.lower() == "main":
             title = 'Q(Main)'
             x = list(range(len(self.Q_list[0])))
-            y = self.Q_list[0] + self.Q_list[2]
+            y = [q_true + q_aux for q_true, q_aux in zip(self.Q_list[0], self.Q_list[2])]
         else:
             logger.error(f"Error: Invalid option for Qtype. Provided value: {Qtype}. "
                          f"Available options: true, robust, aux, main.")
@@ -946,7 +946,7 @@ class ConstrainedModel:
                     marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
         # Highlight the factor feature elements which were constrained
         for c_key, constraint in self.constraints.items():
-            if constraint.constraint_type == "feature" and constraint.index[0] == factor_idx:
+            if constraint.target == "feature" and constraint.index[0] == factor_idx:
                 marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
 
         fig = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
-- 
2.43.0


From c7ad9d7e2f4cf8fed866969597fd468f6c3d7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 033/131] fix: saving an untrained constrained model as text
 reports a failure

---
 esat/rotational/constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a44dbc9..0a60de8 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1174,6 +1174,9 @@ class ConstrainedModel:
         if not output_directory.is_absolute():
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
+        if self.constrained_model is None and not pickle_model:
+            logger.error("The constrained model has not been trained, there is no solution to save.")
+            return None
         if os.path.exists(output_directory):
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
             metadata = self.metadata
-- 
2.43.0


From 7600c2cc63f133d2215949491a4db60367bbec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 034/131] fix: min_timestep returns the smallest time step of
 the index

---
 esat/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..ec0d11c 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -42,17 +42,19 @@ def min_timestep(data: pd.DataFrame):
     int
         Minimum timestep.
     """
-    time_delta = data.index[1: -1] - data.index[0:-2]
+    time_delta = data.index[1:] - data.index[:-1]
+    time_delta = time_delta[time_delta > pd.Timedelta(0)]
+    if len(time_delta) == 0:
+        return "D"
     if time_delta.min().days >= 1:
         resample = f"{int(time_delta.min().days)}D"
     elif time_delta.min().seconds < 60:
-        resample = f"{time_delta.min().seconds}s"
+        resample = f"{max(1, time_delta.min().seconds)}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
-        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
+    return resample
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From 109e17d36ace27eccd28fba430cdb4bed65e021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 035/131] fix: BS-DISP reports the mean profile over all runs
 instead of the profile of the first run

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 88e292a..d1d7a41 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -250,7 +250,7 @@ class BSDISP:
             if any(dQ_drop_i < 0.0):
                 self.n_drops += 1
         self.compiled_results =  copy.copy(self.disp_results[key0].compiled_results)
-        self.compiled_results["profiles"] = np.mean(disp_profiles, axis=0)
+        self.compiled_results["profile"] = np.mean(disp_profiles, axis=0)
         self.compiled_results["profile_max"] = profiles_max
         self.compiled_results["profile_min"] = profiles_min
         self.compiled_results["conc"] = np.mean(disp_conc, axis=0)
-- 
2.43.0


From 49567b6dbe2f46a80c5b6895a17743607cc8bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 036/131] fix: displacement no longer fails when a retrained
 model diverges, its Q drop is unknown

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 4c31f24..2e3e254 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -327,7 +327,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.increase_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -417,7 +417,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
         return factor_i, feature_j, i_results
 
     def _decrease_disp(self, batch: int = -1):
@@ -481,7 +481,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.decrease_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -555,7 +555,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
         return factor_i, feature_j, i_results
 
     def _compile_results(self):
-- 
2.43.0


From 030262b2f3ae45194e5c033dfdb3e1fa12e4686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 037/131] fix: zeros in the processed data are replaced by a
 value which is not zero in 32-bit

---
 esat/data/datahandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..9174d53 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,8 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+# the processed datasets are 32-bit floats, a smaller value would become zero again
+EPSILON = float(np.finfo(np.float32).tiny)
 
 
 class DataHandler:
-- 
2.43.0


From 446bef4f204c41188bf17e958127ce971adbca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 038/131] fix: samples with a missing value in data or
 uncertainty are dropped, if drop_nans

---
 esat/data/datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 9174d53..5b70a4e 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -323,8 +323,10 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        if self.drop_nans:
+            complete_rows = ~_input_nans & ~_uncertainty_nans
+            _input_data = _input_data[complete_rows]
+            _uncertainty_data = _uncertainty_data[complete_rows]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From c604f26f46cbc7bd12fd9d367ff0e7851bb3824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 039/131] fix: setting the category of an unknown feature is
 refused

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 5b70a4e..a53077e 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -146,6 +146,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Unknown feature: {feature}")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From 23aef473fd9711b96a83381004a0d084f0443961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 040/131] fix: the optimal block size is at least one sample,
 its default depends on the samples

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index a53077e..ecb40d3 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -435,9 +435,9 @@ class DataHandler:
                 optimal_block = []
                 for opt in optimal_blocks:
                     optimal_block.append(opt.b_star_cb)
-                self.optimal_block = math.floor(np.mean(optimal_block))
+                self.optimal_block = max(1, math.floor(np.mean(optimal_block)))
         except ValueError as e:
-            self.optimal_block = int(input_data.shape[1]/5)
+            self.optimal_block = max(1, int(input_data.shape[0]/5))
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
 
     def _aggregate_data(self):
-- 
2.43.0


From f64e970171eff594600cadeeccf6e0d2929c66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 041/131] fix: aggregated plotting data is set as the input
 plotting data

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ecb40d3..590eee7 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -468,7 +468,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
+        self.input_data_plot = agg_input
         self.uncertainty_data_plot = agg_uncertainty
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
-- 
2.43.0


From b2d5e0574cefbe2b7c7bc129fcdbe8aad9a9423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 042/131] fix: data loaded from dataframes can be plotted

---
 esat/data/datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 590eee7..d7a7aad 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -905,4 +905,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 78857137619a32ca3a3da6518a2d1bdd3eec7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 043/131] fix: aggregating data with repeated values for
 plotting no longer fails

---
 esat/data/datahandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d7a7aad..4609507 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -457,19 +457,20 @@ class DataHandler:
             self.uncertainty_data_plot = self.uncertainty_data
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
-        agg_input = pd.DataFrame()
-        agg_uncertainty = pd.DataFrame()
+        agg_input = {}
+        agg_uncertainty = {}
         for col in self.input_data.columns:
             quantiles = self.input_data[col].quantile(bins)
-            labels = range(self.max_plotting_n)
+            # bins of repeated values are dropped, so the number of bins can differ between features
+            labels = False
             binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
             agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.input_data_plot = agg_input
-        self.uncertainty_data_plot = agg_uncertainty
+        self.input_data_plot = pd.DataFrame(agg_input)
+        self.uncertainty_data_plot = pd.DataFrame(agg_uncertainty)
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
     def aggregate_output(self, output_array: np.ndarray) -> pd.DataFrame:
@@ -483,7 +484,7 @@ class DataHandler:
             return pd.DataFrame(output_array, columns=self.features)
         # Convert array to DataFrame with correct columns
         output_df = pd.DataFrame(output_array, columns=self.features)
-        agg_output = pd.DataFrame()
+        agg_output = {}
         for col in output_df.columns:
             if col in self._agg_bins:
                 binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
@@ -491,7 +492,7 @@ class DataHandler:
                 agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             else:
                 agg_output[col] = output_df[col]
-        return agg_output
+        return pd.DataFrame(agg_output)
 
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
-- 
2.43.0


From 7e96f6f71381184c9f6a994a6ff5de8bc2b9d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 044/131] fix: location and dropped columns are not treated as
 features, they need not be numeric

---
 esat/data/datahandler.py | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4609507..d38221a 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -283,24 +283,23 @@ class DataHandler:
         else:
             logger.info("Input and output configured successfully")
 
+    def _feature_data(self, data: pd.DataFrame):
+        """
+        The feature columns of a dataset, without the columns to drop and the location columns.
+        """
+        if isinstance(self.loc_cols, str):
+            self.loc_cols = [self.loc_cols]
+        drop_col = [self.drop_col] if isinstance(self.drop_col, str) else self.drop_col
+        excluded = [*(drop_col or []), *(self.loc_cols or [])]
+        return data.drop(labels=excluded, axis=1) if excluded else data
+
     def _set_dataset(self):
         """
         Sets the processed input and uncertainty datasets.
         """
-        # Drop columns if specified
-        if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-        else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
-
-        # Drop location columns if specified
-        if self.loc_cols is not None:
-            if isinstance(self.loc_cols, str):
-                self.loc_cols = [self.loc_cols]
-            _input_data = _input_data.drop(labels=self.loc_cols, axis=1)
-            _uncertainty_data = _uncertainty_data.drop(labels=self.loc_cols, axis=1)
+        # Drop the specified columns and the location columns
+        _input_data = copy.copy(self._feature_data(self.input_data)).astype("float32")
+        _uncertainty_data = copy.copy(self._feature_data(self.uncertainty_data)).astype("float32")
 
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
@@ -400,8 +399,8 @@ class DataHandler:
         self.min_values = self.input_data.min(axis=0)
         self.max_values = self.input_data.max(axis=0)
 
-        c_df = self.input_data.copy()
-        u_df = self.uncertainty_data.copy()
+        c_df = self._feature_data(self.input_data).copy()
+        u_df = self._feature_data(self.uncertainty_data).copy()
 
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
@@ -428,7 +427,7 @@ class DataHandler:
         Sets the self.optimal_block parameter by taking the average value of b_star_cb of each feature.
         """
         if input_data is None:
-            input_data = self.input_data.to_numpy()
+            input_data = self._feature_data(self.input_data).to_numpy()
         try:
             with np.errstate(divide='ignore', invalid='ignore'):
                 optimal_blocks = optimal_block_length(input_data)
@@ -451,21 +450,23 @@ class DataHandler:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
             return
-        n_samples = len(self.input_data)
+        input_data = self._feature_data(self.input_data)
+        uncertainty_data = self._feature_data(self.uncertainty_data)
+        n_samples = len(input_data)
         if n_samples <= self.max_plotting_n:
-            self.input_data_plot = self.input_data
-            self.uncertainty_data_plot = self.uncertainty_data
+            self.input_data_plot = input_data
+            self.uncertainty_data_plot = uncertainty_data
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
         agg_input = {}
         agg_uncertainty = {}
-        for col in self.input_data.columns:
-            quantiles = self.input_data[col].quantile(bins)
+        for col in input_data.columns:
+            quantiles = input_data[col].quantile(bins)
             # bins of repeated values are dropped, so the number of bins can differ between features
             labels = False
-            binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
-            agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
+            binned = pd.cut(input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
+            agg_input[col] = input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
+            agg_uncertainty[col] = uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-- 
2.43.0


From 08894ed3ed3eaab882ec122b3daee20e090ce904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 045/131] fix: the location columns stay location columns after
 splitting by location

---
 esat/data/datahandler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d38221a..241c47d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -199,7 +199,8 @@ class DataHandler:
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
-            dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc,
+                                            loc_cols=self.loc_cols, drop_col=self.drop_col)
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
@@ -887,7 +888,8 @@ class DataHandler:
             return fig
 
     @staticmethod
-    def load_dataframe(input_df: pd.DataFrame, uncertainty_df: pd.DataFrame):
+    def load_dataframe(input_df: pd.DataFrame, uncertainty_df: pd.DataFrame, loc_cols: str | list = None,
+                       drop_col: list = None):
         """
         Pass in pandas dataframes for the input and uncertainty datasets, instead of using files.
 
@@ -895,13 +897,17 @@ class DataHandler:
         ----------
         input_df
         uncertainty_df
+        loc_cols : str | list
+            Location information columns, see DataHandler. Default = None.
+        drop_col : list
+            A list of columns to drop from the dataset. Default = None.
 
         Returns
         -------
         DataHandler
             Instance of DataHandler using dataframes as input.
         """
-        dh = DataHandler(input_path="", uncertainty_path="", load=False)
+        dh = DataHandler(input_path="", uncertainty_path="", load=False, loc_cols=loc_cols, drop_col=drop_col)
         dh.input_data = input_df
         dh.uncertainty_data = uncertainty_df
         dh.features = input_df.columns
-- 
2.43.0


From 97b87a0ee0216dbce787b0a97c526a6edd8b4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 046/131] fix: merged data can be processed, the source label
 is not a feature

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 241c47d..4f8f233 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -256,6 +256,9 @@ class DataHandler:
         # Concatenate
         self.input_data = pd.concat(merged_input, ignore_index=True)
         self.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
+        # the source identifies where the data is from, it is not a feature
+        loc_cols = [self.loc_cols] if isinstance(self.loc_cols, str) else list(self.loc_cols or [])
+        self.loc_cols = loc_cols + ['source_label']
         self.features = [col for col in self.input_data.columns if col != 'source_label']
 
         logger.info("DataHandlers merged successfully.")
-- 
2.43.0


From 837d73f658284e8cae2eec92f71d12bc7414b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 047/131] fix: metrics and plotting data describe the merged
 data after a merge

---
 esat/data/datahandler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4f8f233..e73209d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -261,6 +261,13 @@ class DataHandler:
         self.loc_cols = loc_cols + ['source_label']
         self.features = [col for col in self.input_data.columns if col != 'source_label']
 
+        # Update the metrics and plotting data for the merged data, keeping the assigned categories
+        categories = self.metrics["Category"]
+        self._load_data(existing_data=True)
+        self.metrics["Category"] = categories
+        self._determine_optimal_block()
+        self._aggregate_data()
+
         logger.info("DataHandlers merged successfully.")
         return True
 
-- 
2.43.0


From 87d6ecee7a9f19a754846c11d5c33fa84f53b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 048/131] fix: without an index column the first column of the
 file is the index, as documented

---
 esat/data/datahandler.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e73209d..73ad556 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -375,15 +375,9 @@ class DataHandler:
         """
         ext = filepath.split(".")[-1]
         if ext in ["csv", "txt"]:
-            if index_col:
-                data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
-            else:
-                data = pd.read_csv(filepath, sep=None, engine="python")
+            data = pd.read_csv(filepath, index_col=0 if index_col is None else index_col, sep=None, engine="python")
         elif ext in ["xls", "xlsx"]:
-            if index_col:
-                data = pd.read_excel(filepath, index_col=index_col)
-            else:
-                data = pd.read_excel(filepath)
+            data = pd.read_excel(filepath, index_col=0 if index_col is None else index_col)
         else:
             logger.warning(f"Unknown file type provided. Ext: {ext}, file: {filepath}")
             #TODO: Add custom exception for unknown file types.
-- 
2.43.0


From ca6fc37a15344ada4002e818d66e005a644cda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 049/131] fix: data imputation works again

---
 esat/data/impute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..2cae491 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
@@ -57,10 +58,10 @@ class DataImputer:
         U = self.data_handler.uncertainty_data
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
-            U = np.where(U == self.missing_value, np.nan, U)
+            U = U.mask(U == self.missing_value)
 
         # Create a mask for referencing missing values
-        self.imputation_mask = np.isnan(V) | np.isnan(U)
+        self.imputation_mask = pd.isna(V) | pd.isna(U).to_numpy()
 
         if strategy in ['mean', 'median', 'most_frequent']:
             self._run_simple_imputer(V, U, strategy)
-- 
2.43.0


From 0c2d7c51f5f9bd967da9f7e645c6941c6b5444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 050/131] fix: pull down searches between zero and the current
 value

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 0a60de8..b81be79 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -597,6 +597,7 @@ class ConstrainedModel:
         low_mod = 0.0
         modifier = (high_mod + low_mod) / 2
 
+        base_value = _H[index] if target == "feature" else _W[index]
         value_found = False
         search_i = 0
         p_mod = 0.0
@@ -605,10 +606,10 @@ class ConstrainedModel:
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = base_value * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = base_value * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From e4a8824b72c2fb4661d87f5df5ee4988a1b05a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 051/131] fix: constrained g-space axes name the factors which
 they show, with an average of 1

---
 esat/rotational/constrained.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b81be79..e6c27c3 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1066,8 +1066,8 @@ class ConstrainedModel:
         b_W = self.base_model.W
         c_W = self.constrained_model.W
 
-        b_normalized_factors_contr = b_W / b_W.sum(axis=0)
-        c_normalized_factors_contr = c_W / c_W.sum(axis=0)
+        b_normalized_factors_contr = b_W / b_W.mean(axis=0)
+        c_normalized_factors_contr = c_W / c_W.mean(axis=0)
 
         if show_delta:
             arrows = ((c_normalized_factors_contr[:, f1_idx] - b_normalized_factors_contr[:, f1_idx]),
@@ -1091,8 +1091,8 @@ class ConstrainedModel:
                     go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx],
                                mode='markers', name="Base"))
         fp_g_fig.update_layout(title=f"Constrained G-Space Plot", width=800, height=800)
-        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
-        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
+        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
         fp_g_fig.show()
 
     def plot_factor_contributions(self, feature_idx, threshold: float = 0.06):
-- 
2.43.0


From 128d117db7323ffc784329041df60e2b41efd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 052/131] fix: constrained factor contributions plotted as
 avg=1 average to 1

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index e6c27c3..cb85c3e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1136,7 +1136,7 @@ class ConstrainedModel:
         feature_fig.show()
 
         factors_contr = self.constrained_model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data.index)
-- 
2.43.0


From e99c21fa88d8e53d99cf7b531b36015d85fb593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 053/131] fix: constrained fingerprints of models with more
 than 10 factors

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index cb85c3e..d3a72a7 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1025,11 +1025,11 @@ class ConstrainedModel:
         colors = px.colors.sequential.Viridis_r
         for idx in range(self.base_model.factors - 1, -1, -1):
             fp_factors_fig.add_trace(go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=b_normalized[idx],
-                                            marker_color=colors[idx], hovertext="Base", legendgroup=f"group{idx}",
+                                            marker_color=colors[idx % len(colors)], hovertext="Base", legendgroup=f"group{idx}",
                                             showlegend=False), row=1, col=1)
             fp_factors_fig.add_trace(
                 go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=c_normalized[idx],
-                       marker_color=colors[idx], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
+                       marker_color=colors[idx % len(colors)], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
         fp_factors_fig.update_layout(title=f"Constrained Factor Fingerprints", width=1200, height=800,
                                      barmode='stack', hovermode='x unified')
         fp_factors_fig.update_yaxes(title_text="% Feature Concentration", range=[0, 100])
-- 
2.43.0


From becc3c0808250dc7ef00723ae1fe9494ee7c267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 054/131] fix: evaluating the expressions of a model without
 expressions

---
 esat/rotational/constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index d3a72a7..bdd9ce5 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -843,6 +843,9 @@ class ConstrainedModel:
         TODO: Perform factor mapping between the base solution and the constrained solution.
 
         """
+        if len(self.expression_labeled) == 0:
+            logger.info("No expressions have been added, there is nothing to evaluate.")
+            return
         exp_element = {}
         max_terms = np.max([len(i[0]) for i in self.expression_labeled])
         exp_table = [[""] * (max_terms + 3) for i in range(len(self.expression_labeled))]
-- 
2.43.0


From 8e0b49784d382c076d4ced663ca6f1db5fb4b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 055/131] fix: pull up keeps to the dQ limit when it is first
 exceeded in the last doubling

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index bdd9ce5..9da8c24 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -657,7 +657,7 @@ class ConstrainedModel:
             else:
                 high_found = True
             high_search_i += 1
-            if high_search_i >= max_search_i:
+            if not high_found and high_search_i >= max_search_i:
                 return new_value
         new_value = 0.0
         modifier = (high_modifier + low_modifier) / 2.0
-- 
2.43.0


From 15e370c38cd896ee6edf1930e748cdbc249d24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 056/131] fix: the simulator works with a single factor

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 603170a..5460e94 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -147,7 +147,7 @@ class Simulator:
             factor_list = list(range(self.factors_n))
             for i in range(self.features_n):
                 # the number of factors which contribute to current feature
-                factor_features_n = self.rng.integers(1, self.factors_n, 1)
+                factor_features_n = self.rng.integers(1, max(2, self.factors_n), 1)
                 # the specific factors which contribute to current feature
                 factor_feature_selected = self.rng.choice(factor_list, size=factor_features_n, replace=False)
                 for j in factor_feature_selected:
-- 
2.43.0


From fdacbee5789296fc13aa76849d203297a27a87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 057/131] fix: the simulator does not modify the profiles it is
 given

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 5460e94..5a09d86 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From c7fa2a8c7e350a2981d5bef3c1685cece65ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 058/131] fix: logistic contributions with a frequency above 1

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 5a09d86..ed84936 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
             n_periods = int(1.0/frequency) + 1
             for i in range(0, n_periods+1):
                 if i == n_periods:
-                    steps = self.samples_n - (2 * int(self.samples_n/n_periods))
+                    steps = max(0, self.samples_n - (2 * int(self.samples_n/n_periods)))
                 else:
                     steps = int(self.samples_n/n_periods)
                 if i % 2 == 0:
-- 
2.43.0


From ab13570de9347bfe5fc1da9103c653e54aca4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 059/131] fix: periodic contributions of few samples or many
 periods

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index ed84936..0cedd97 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -216,8 +216,8 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
+            curve_a = np.linspace(-np.pi, np.pi, max(2, int(self.samples_n / n_periods)))
+            curve_x = np.tile(curve_a[0:len(curve_a) - 1], int(np.ceil(self.samples_n / (len(curve_a) - 1))))
             curve_x = curve_x[0:self.samples_n]
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
-- 
2.43.0


From 7d9557f3f4fb9f8f4c76c74476cffc88b539a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 060/131] fix: uniform contributions keep to the minimum

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 0cedd97..8166c0f 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -222,7 +222,7 @@ class Simulator:
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-            curve_y = self.rng.random(size=(self.samples_n, 1)) * float(maximum)
+            curve_y = float(minimum) + self.rng.random(size=(self.samples_n, 1)) * (float(maximum) - float(minimum))
         curve_y = curve_y[:self.samples_n]
         y_data = self.rng.normal(loc=curve_y, scale=scale, size=curve_y.shape).flatten()
         y_data[y_data <= 0.0] = 1e-12
-- 
2.43.0


From 76da1f81af83d88fee995682f900222e9b3ab3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 061/131] fix: data are recalculated when a contribution is
 updated after they were generated

---
 eval/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index 8166c0f..05e0084 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -231,6 +231,8 @@ class Simulator:
             logger.info(f"Synthetic factor {factor_i + 1} contribution updated as a random sampling from a normal "
                         f"distribution along a {curve_type} curve.")
             logger.info(f"Frequency: {frequency}, Shape: {curve_y.shape}")
+        if self.syn_data is not None:
+            self.get_data()
 
     def _generate_data(self):
         """
-- 
2.43.0


From d4443ceace79a81fe91d8566a71e8d97c0cad0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 062/131] fix: the robust loss of the synthetic model is a
 number

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 05e0084..ed8ed1d 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -292,7 +292,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From f15cd1cc87f7c157943a25318327605522d67523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 063/131] fix: selecting a model before the comparison is
 refused

---
 eval/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index ed8ed1d..c0f940d 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -350,6 +350,7 @@ class Simulator:
         else:
             if self.factor_compare is None:
                 logger.error("Factor compare must be completed prior to selecting a model.")
+                return
             logger.info(f"Mappings for the most selected model in the batch. Model: {selected_model}")
             self.factor_compare.print_results(model=selected_model)
 
-- 
2.43.0


From e58cfbaa447b0b74817b014b35b502b4e89d9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 064/131] fix: the comparison of the first model can be plotted

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index c0f940d..e2a9c1e 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -382,7 +382,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -460,7 +460,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From 4b72d442d9b4078306209006a2772501b4a9b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 065/131] fix: profile comparison of a single or a perfectly
 matching factor

---
 eval/simulator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index e2a9c1e..6473e68 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -465,7 +465,6 @@ class Simulator:
 
         factor_compare = self.factor_compare.model_results[model_i]
 
-        color_map = px.colors.sample_colorscale("plasma", [n / (self.factors_n - 1) for n in range(self.factors_n)])
         r_color_map = px.colors.sample_colorscale("jet", [n / (100 - 1) for n in range(100)])
 
         syn_H = self.syn_profiles
@@ -500,7 +499,7 @@ class Simulator:
                 go.Bar(name=f"Modelled Factor {mod_i+1}", x=self.syn_columns, y=norm_H[mod_i],
                        marker_color="green"), row=1, col=1)
             i_r2 = factor_compare['best_factor_r'][i - 1]
-            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[int(100 * i_r2)],
+            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[min(99, int(100 * i_r2))],
                                    text=np.round(i_r2, 4), textposition="inside", hoverinfo='text',
                                    hovertemplate="R2: %{x:4f}<extra></extra>", showlegend=False), row=2, col=1)
             h_fig.add_trace(
-- 
2.43.0


From b9a85ac4740bc4b5d83e79e798154db0e2405dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 066/131] fix: factor comparison of a batch with a failed model

---
 eval/factor_comparison.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..4910580 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -260,7 +260,8 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        # models without a result are not part of the comparison, the others keep their index
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -271,7 +272,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -313,7 +314,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From b7cbd1e51e4a956813c40f07f0e04658d8ff3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 067/131] fix: the printed loss of the base solution uses the
 uncertainty

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 4910580..891c640 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -395,7 +395,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From eabcdcf32a007d171c0cf8e7213aad9ff6f356d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 068/131] fix: the estimated data of the compared models are
 not scrambled

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 891c640..0ce1232 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -230,11 +230,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From 726f834307079668b115ba417a51d5a1561affa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 069/131] fix: factor comparison on a single cpu

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 0ce1232..00d1a15 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -297,7 +297,7 @@ class FactorCompare:
         best_wh_r = None
         best_wh_r_avg = None
 
-        pool = mp.Pool(processes=os.cpu_count()-1)
+        pool = mp.Pool(processes=max(1, os.cpu_count()-1))
 
         if len(self.base_factors) >= len(self.sa_factors):
             prime_list = self.base_factors
-- 
2.43.0


From d65d0b488e0afe62ab918af8d4db79d9fad88690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 070/131] fix: loading PMF5 output for comparison

---
 eval/factor_comparison.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 00d1a15..4b8e2b8 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -167,6 +167,8 @@ class FactorCompare:
         for f in factor_columns:
             factor_types[f] = 'float'
         pmf_profiles_df = pmf_profiles_df.astype(factor_types)
+        # the columns are the factors
+        pmf_profiles_df.set_index("species", inplace=True)
 
         column_row = 4
         data_start_row = 5
-- 
2.43.0


From 2b24b59d82c2402f691ae79adae63c2a3ca6cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 071/131] fix: factor mapping of FactorCompareV2 is one to one
 and optimal

---
 eval/factor_comparison.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 4b8e2b8..983e1c0 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -580,16 +579,17 @@ class FactorCompareV2:
         batch_values = {}
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
+            # rows are the factors of the base model, columns the factors of the compared model
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
+                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=1)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
@@ -597,13 +597,12 @@ class FactorCompareV2:
             if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
                 model_mapping = optimal_indices
             else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+                model_mapping = linear_sum_assignment(mapping_matrix, maximize=maximize)[1]
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From 31f4752f2b7ee6edb44f89827db80bcf5ce35bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 072/131] fix: the factor catalog can be used outside of
 notebooks

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..f836396 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 import pandas as pd
-from tqdm.notebook import tqdm, tnrange
+from tqdm.auto import tqdm, trange
 from esat_eval.factor_comparison import FactorCompare
 
 logger = logging.getLogger(__name__)
@@ -335,7 +335,7 @@ class FactorCatalog:
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
-        for i in tnrange(len(batch_results.results), desc="Analyzing Models", leave=True):
+        for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
-- 
2.43.0


From c075b153125a662a662d3cf0fc59f481375f90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 073/131] fix: model count of the factor catalog

---
 eval/factor_catalog.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index f836396..262856f 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -285,8 +285,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
-            self.model_count = model_index+1
+        self.model_count = max(self.model_count, model_index + 1)
         add_new = False
         if self.idx == 0:
             add_new = True
-- 
2.43.0


From 26ad0a9e407982f4da52bd0fb3d705b1945ab079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 074/131] fix: a cataloged factor keeps its threshold

---
 eval/factor_catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 262856f..029ef11 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -34,6 +34,7 @@ class Factor:
         self.correlation = [ 0.0 if method == "raae" else 1.0]
         self.samples = len(contribution)
         self.method = method
+        self.threshold = threshold
         if threshold is None:
             if method == "raae":
                 self.threshold = 0.1
-- 
2.43.0


From 09b9a66be5db69142da4c859550b9940f8774593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 075/131] fix: catalog thresholds above one for the relative
 error

---
 eval/factor_catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 029ef11..7a6e778 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -229,7 +229,8 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        # raae is an error and can be greater than 1
+        best_corr = float("inf") if self.method == "raae" else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
             if self.method == "raae":
-- 
2.43.0


From 2ff6a1fc18b10ccb0d1333c1a69681e0cedd9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 076/131] fix: comparing profiles only with the relative error

---
 eval/factor_catalog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 7a6e778..b29dd26 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -95,7 +95,10 @@ class Factor:
         corr_list = []
         for f in self.factor:
             f_H, f_W = f
-            if profile_only:
+            if profile_only and self.method == "raae":
+                # the relative error of the profiles, an error like that of the contributions
+                corr = np.sum(np.abs(f_H - H_j)) / np.sum(f_H)
+            elif profile_only:
                 corr = FactorCompare.calculate_correlation(factor1=f_H, factor2=H_j)
             elif self.method == "raae":
                 corr = (np.sum(np.abs(f_W - W_j)) * n) / (np.sum(f_W) * n)
-- 
2.43.0


From 667b67a7fd88b753d531e1b71a90b9d0aac0bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 077/131] fix: comparing a factor with a catalog by the
 relative error

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index b29dd26..659edfa 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -392,7 +392,7 @@ class FactorCatalog:
             The correlation of the most correlated factor in the catalog
         """
         best_factor = None
-        best_corr = 0.0
+        best_corr = float("inf") if self.method == "raae" else 0.0
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
@@ -400,7 +400,7 @@ class FactorCatalog:
                 corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            if (mean_corr < best_corr) if self.method == "raae" else (mean_corr > best_corr):
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From 9e676a4f0ab473da30b4a9962452aec3b3d7169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 078/131] fix: cataloging a batch with a failed model

---
 eval/factor_catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 659edfa..7178f12 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -335,12 +335,16 @@ class FactorCatalog:
         if self.exclude_outliers:
             loss_list = []
             for model in batch_results.results:
+                if model is None:
+                    continue
                 loss_list.append(model.Qtrue)
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
         for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
+            if model is None:
+                continue
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
                     continue
-- 
2.43.0


From d250f1a61c4a4db52d7d4a12dfbc5f136c89b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 079/131] fix: only the given percentage of the uncertainty is
 perturbed

---
 eval/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..0bc1982 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -178,11 +178,11 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            # the cells which are not perturbed keep their uncertainty
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
             ij_u = i_u[:, i]
             ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From fcf936e4676c32d88726062795980cc68bf6598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 080/131] fix: whole numbers for perturb_percent and sigma

---
 eval/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 0bc1982..0193668 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -165,11 +165,11 @@ class Perturbation:
         i_u = copy.copy(self.U)
         sigma = self.sigma
         perturb_p = self.perturb_percent
-        if isinstance(self.perturb_percent, float):
+        if isinstance(self.perturb_percent, (int, float)):
             perturb_p = [self.perturb_percent for i in range(self.U.shape[1])]
         elif isinstance(self.perturb_percent, list) and len(self.perturb_percent) != self.U.shape[1]:
             perturb_p = [self.perturb_percent[0] for i in range(self.U.shape[1])]
-        if isinstance(self.sigma, float):
+        if isinstance(self.sigma, (int, float)):
             sigma = [self.sigma for i in range(self.U.shape[1])]
         elif isinstance(self.sigma, list) and len(self.sigma) != self.U.shape[1]:
             sigma = [self.sigma[0] for i in range(self.U.shape[1])]
-- 
2.43.0


From 5b3f988a0f0ff66f627062076bb4fae0e71d60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 081/131] fix: comparing perturbed models with a single factor

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 0193668..60cc0a2 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -256,7 +256,7 @@ class Perturbation:
         min_perturb_H = np.min(self.perturb_H, axis=2)
         max_perturb_H = np.max(self.perturb_H, axis=2)
 
-        factor_i = 1
+        factor_i = min(1, self.factors - 1)
         f1_dict = {
             "Base": base_H[factor_i],
             "Mean Perturb": mean_perturb_H[factor_i],
-- 
2.43.0


From 97c9e2de55c1c2e8499bc27ceff45ac2c829bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 082/131] fix: the plotted correlations are those of the base
 factors

---
 eval/perturbation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 60cc0a2..cfc6767 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -375,7 +375,8 @@ class Perturbation:
         factor_corr_fig = make_subplots()
         factor_corr = np.zeros(shape=(self.models, len(factor_labels)))
         for i, v in self.perturb_mapping.items():
-            factor_corr[i] = np.array(self.perturb_correlations[i])[v]
+            # the values are in the order of the base factors already
+            factor_corr[i] = np.array(self.perturb_correlations[i])
         for i in range(len(factor_labels)):
             i_corr_means = factor_corr[:, i]
             factor_corr_fig.add_trace(go.Box(y=i_corr_means, name=factor_labels[i]))
-- 
2.43.0


From a7a13c755757f4bad85789b6ed0fb787c6f0b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 083/131] fix: perturbation on a single cpu

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index cfc6767..2bd7f7b 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -118,7 +118,7 @@ class Perturbation:
             sa_model.initialize()
             sa_model.train(max_iter=self.max_iterations, converge_delta=self.converge_delta, converge_n=self.converge_n)
             self.base_model = sa_model
-        cores = int(mp.cpu_count() * 0.75)
+        cores = max(1, int(mp.cpu_count() * 0.75))
         pool = mp.Pool(processes=cores)
         parallel_args = [(i, self.rng.integers(0, 1e5)) for i in range(self.models)]
 
-- 
2.43.0


From 45c326ea5b5036d1cad30ea9cdf59c7c8b8cfb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 084/131] fix: the test error is that of the test cells

---
 esat/estimator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..2d87de9 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -1,6 +1,5 @@
 import logging
 import os
-import copy
 import numpy as np
 import pandas as pd
 import multiprocessing as mp
@@ -71,9 +70,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From ad591f1b4592e06e411bd1476739087063872fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 085/131] fix: the models of the factor estimation are not
 trained on their test cells

---
 esat/estimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/estimator.py b/esat/estimator.py
index 2d87de9..7c3f0e4 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -74,6 +74,8 @@ class FactorEstimator:
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
+        # the test cells have no weight in the training
+        _sa.We = np.multiply(_sa.We, mask).astype(_sa.We.dtype)
         _sa.train(max_iter=max_iter, converge_delta=converge_delta, converge_n=converge_n)
         residuals = V - _sa.WH
         s_residuals = residuals**2
-- 
2.43.0


From 154e0f5ee24ae4d9c0573d1f7a0c0eeb14c4325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 086/131] fix: factor estimation with a single or an unsampled
 factor count

---
 esat/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 7c3f0e4..54b9cfc 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -158,15 +158,17 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
+        # a factor count which was not sampled has no MSE
+        c = np.nan if np.all(np.isnan(delta_mse_r)) else 1.01 * np.nanmax(delta_mse_r)
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
             # rd = (delta_mse_r[factor_n]/min1) / np.abs(max1 - c * delta_mse_r[factor_n + 1])
             ratio_delta.append(rd)
-        ratio_delta.append(np.nan)
+        if len(self.test_mse) > 1:
+            ratio_delta.append(np.nan)
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nan if np.all(np.isnan(self.test_mse)) else np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From 3736bb13844f82b0eae16adfb9eb0b8fac4a5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 087/131] fix: factor estimation on a single cpu

---
 esat/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 54b9cfc..d4804f5 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -133,7 +133,7 @@ class FactorEstimator:
             mask = self._get_mask(threshold=self.test_percent)
             pool_parameters.append((self.V, self.U, mask, seed_i, factor_i, max_iterations, converge_delta, converge_n))
 
-        pool = mp.Pool(os.cpu_count()-1)
+        pool = mp.Pool(max(1, os.cpu_count()-1))
         results = []
         for p_parameter in pool_parameters:
             r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
-- 
2.43.0


From ac9e1185091ba0bad6230d95fd7a7e7c44f52732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 088/131] fix: RMSE of the feature metrics

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..cac02a7 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(float(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2))), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From 45a7251dde023939c1d3330c5862d2c6fa483c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 089/131] fix: plots of a model which is not part of a batch

---
 esat/data/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index cac02a7..897a83e 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -40,7 +40,8 @@ class ModelAnalysis:
         """
         self.dh = datahandler
         self.model = model
-        self.selected_model = selected_model
+        # a model which is not part of a batch is labelled as the first model
+        self.selected_model = 0 if selected_model is None else selected_model
         self.statistics = None
         self.residual_metrics = None
         self.V_prime_k = None
-- 
2.43.0


From d7a0933d17363054a223458c01a7e7c976390ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 090/131] fix: statistics of data with dropped samples or
 location columns

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 897a83e..d271443 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -143,7 +143,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From 830df871404d713676f6de70570db739ef30c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 091/131] fix: contribution thresholds above 50 are refused

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index d271443..2555ef7 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -773,7 +773,7 @@ class ModelAnalysis:
         if feature_idx > self.dh.input_data_df.shape[1] - 1 or feature_idx < 0:
             logger.info(f"Invalid feature index provided, must not be negative and be less than {self.dh.input_data_df.shape[1]-1}")
             return
-        if 50.0 > contribution_threshold < 0:
+        if contribution_threshold < 0 or contribution_threshold > 50.0:
             logger.info(f"Invalid contribution threshold provided, must be between 0.0 and 50.0")
             return
         x_label = self.dh.input_data_df.columns[feature_idx]
-- 
2.43.0


From 6bed8e45d5cf038463f77cff62be135128634991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 092/131] fix: contributions labelled avg=1 average to 1

---
 esat/data/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 2555ef7..72d0bb2 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -737,7 +737,7 @@ class ModelAnalysis:
             return
 
         factors_contr = self.model.W
-        normalized_factors_contr = factors_contr / factors_contr.sum(axis=0)
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         f1_idx = factor_1 - 1
         f2_idx = factor_2 - 1
         fig = go.Figure(data=go.Scatter(
@@ -799,7 +799,7 @@ class ModelAnalysis:
             feature_fig.show()
 
         factors_contr = self.model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1]+1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
-- 
2.43.0


From 0f0ff2b705fdefa21f78a07a9ca8425f9698a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 093/131] fix: 3d plot of concentrations and percentages

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 72d0bb2..a8882cb 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -641,7 +641,7 @@ class ModelAnalysis:
         # Add 3D bar graphs for "Conc. of Features"
         if plot_type.lower() in ["conc", "both"]:
             fig.add_trace(_create_mesh3d(conc_z, "Conc. of Features"))
-        else:
+        if plot_type.lower() != "conc":
             # Add 3D bar graphs for "% of Features"
             fig.add_trace(_create_mesh3d(percent_z, "% of Features"))
         if plot_type.lower() == "both":
-- 
2.43.0


From 6750ee235fcd9fd4d82a58e2a10a4cc9f9790fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 094/131] fix: factor surface shows the percentage of the sum
 of all factors

---
 esat/data/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index a8882cb..a601f4c 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -883,7 +883,9 @@ class ModelAnalysis:
             fH = self.model.H[f]
             f_matrix = np.multiply(fW, fH)
             factor_matrices.append(f_matrix)
-            percent_matrices.append(f_matrix / self.model.V)
+        factor_sum = np.sum(factor_matrices, axis=0)
+        for f_matrix in factor_matrices:
+            percent_matrices.append(100 * f_matrix / factor_sum)
 
         _y = self.dh.input_data_df.index
         z_title = "Percentage (%)" if percentage else "Mass"
-- 
2.43.0


From fcd7fc3a9c196c8634376aa7e4b04d79eda5dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 095/131] fix: temporal residuals with failed models or bad
 features

---
 esat/data/analysis.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index a601f4c..c078196 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1007,13 +1007,12 @@ class BatchAnalysis:
 
         if self.data_handler is None:
             V = self.batch_sa.V
-            V_primes = [r.WH for r in self.batch_sa.results if r is not None]
+            V_primes = [None if r is None else r.WH for r in self.batch_sa.results]
             features = [f"Feature {i + 1}" for i in range(V.shape[1])]
             x = list(range(1, V.shape[0] + 1))
             feature_label = features[feature_idx]
             col_idx = feature_idx
         else:
-            V = self.data_handler.input_data_plot.values
             if len(self.aggregated_output) == 0:
                 for i, r in enumerate(self.batch_sa.results):
                     if r is not None:
@@ -1026,7 +1025,7 @@ class BatchAnalysis:
 
         temporal_fig = go.Figure()
         # Add input trace
-        y_input = V[:, col_idx]
+        y_input = V[:, col_idx] if self.data_handler is None else self.data_handler.input_data_plot[feature_label].values
         temporal_fig.add_trace(
             go.Scatter(x=x, y=y_input, name="Input", line=dict(dash='dash', width=2), visible=True)
         )
@@ -1038,9 +1037,9 @@ class BatchAnalysis:
             if self.data_handler is not None:
                 if not isinstance(V_prime, pd.DataFrame):
                     V_prime = pd.DataFrame(V_prime, columns=self.data_handler.features, index=x)
-                y_res = V[:, col_idx] - V_prime[feature_label].values
+                y_res = y_input - V_prime[feature_label].values
             else:
-                y_res = V[:, col_idx] - V_prime[:, col_idx]
+                y_res = y_input - V_prime[:, col_idx]
             visible = True if i == self.batch_sa.best_model else "legendonly"
             temporal_fig.add_trace(
                 go.Scatter(x=x, y=y_res, mode='lines', name=f"Model {i + 1}", visible=visible)
-- 
2.43.0


From cdd79afc23934ad385324fcc89b68ff56220b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 096/131] fix: plotting the estimates of more samples than
 max_plotting_n

---
 esat/data/analysis.py    |  4 +++-
 esat/data/datahandler.py | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index c078196..0213b13 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -68,7 +68,9 @@ class ModelAnalysis:
         # sum of aggregated factors, into v_prime (same dimensions as V)
         factor_vprime = sum([agg_df.values for agg_df in factor_agg.values()])
         factor_vprime = pd.DataFrame(factor_vprime, columns=self.dh.input_data_df.columns,
-                                     index=self.dh.input_data_df.index)
+                                     index=agg_df.index)
+        if len(factor_vprime) == len(self.dh.input_data_df):
+            factor_vprime.index = self.dh.input_data_df.index
         self.V_prime_plot = factor_vprime
         self.V_prime_k = factor_agg
         return factor_agg, factor_vprime
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 73ad556..73bb540 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -451,6 +451,7 @@ class DataHandler:
         """
         self._agg_bins = {}
         self._agg_labels = {}
+        self._agg_groups = {}
         if self.input_data is None or self.uncertainty_data is None:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
@@ -475,6 +476,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
+            self._agg_groups[col] = binned
         self.input_data_plot = pd.DataFrame(agg_input)
         self.uncertainty_data_plot = pd.DataFrame(agg_uncertainty)
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
@@ -492,9 +494,12 @@ class DataHandler:
         output_df = pd.DataFrame(output_array, columns=self.features)
         agg_output = {}
         for col in output_df.columns:
-            if col in self._agg_bins:
-                binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
-                                duplicates='drop')
+            if col in self._agg_groups:
+                # the same samples are aggregated as in the input data
+                binned = self._agg_groups[col]
+                if len(binned) != len(output_df):
+                    binned = binned.loc[self.input_data_df.index]
+                binned = binned.to_numpy()
                 agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             else:
                 agg_output[col] = output_df[col]
-- 
2.43.0


From 44d130e808fd3c9108d54a01d5916510f7f208cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 097/131] fix: observed/predicted plot of data with dropped
 samples

---
 esat/data/analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0213b13..5c6645d 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -306,6 +306,9 @@ class ModelAnalysis:
             self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.input_data_plot[feature]
+        if len(observed_data) != len(self.V_prime_plot):
+            # samples with missing values are not part of the model
+            observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
         # Perform regression
-- 
2.43.0


From 4058b7011b44112eadd249098fabb499fc69b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 098/131] fix: observed/predicted plot of aggregated data with
 repeated values

---
 esat/data/analysis.py    | 3 +++
 esat/data/datahandler.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 5c6645d..f081419 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -310,6 +310,9 @@ class ModelAnalysis:
             # samples with missing values are not part of the model
             observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
+        # features with repeated values can have fewer aggregated samples than others
+        available = observed_data.notna().to_numpy() & predicted_data.notna().to_numpy()
+        observed_data, predicted_data = observed_data[available], predicted_data[available]
 
         # Perform regression
         A = np.vstack([observed_data.values, np.ones(len(observed_data))]).T
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 73bb540..963cda0 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -486,7 +486,7 @@ class DataHandler:
         Aggregate an output numpy array using the same bins/labels as used in _aggregate_data.
         Returns a pandas DataFrame.
         """
-        if not hasattr(self, "_agg_bins") or not hasattr(self, "_agg_labels"):
+        if not hasattr(self, "_agg_groups"):
             logger.error("No aggregation bins/labels found. Run _aggregate_data first.")
             # Fallback: return as DataFrame with feature names
             return pd.DataFrame(output_array, columns=self.features)
-- 
2.43.0


From 52843e4f20cf302b2715269eeb37658ab2a49e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 099/131] fix: aggregated estimates have the bins of the
 aggregated input

---
 esat/data/datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 963cda0..ad8e1db 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -499,8 +499,9 @@ class DataHandler:
                 binned = self._agg_groups[col]
                 if len(binned) != len(output_df):
                     binned = binned.loc[self.input_data_df.index]
-                binned = binned.to_numpy()
-                agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
+                agg_means = output_df.groupby(binned.to_numpy())[col].mean()
+                # a bin without a sample in the output stays empty, so that the bins are those of the input
+                agg_output[col] = agg_means.reindex(np.unique(self._agg_groups[col].dropna())).reset_index(drop=True)
             else:
                 agg_output[col] = output_df[col]
         return pd.DataFrame(agg_output)
-- 
2.43.0


From 163b460f2ded6a8fe37b34576637bec20779ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 100/131] fix: temporal residuals of data with dropped samples

---
 esat/data/analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index f081419..dccc708 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1029,11 +1029,15 @@ class BatchAnalysis:
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
             col_idx = feature_idx
-            x = self.data_handler.input_data_plot.index
+            input_data = self.data_handler.input_data_plot
+            if any(v is not None and len(v) != len(input_data) for v in V_primes):
+                # samples with missing values are not part of the models
+                input_data = self.data_handler.input_data_df
+            x = input_data.index
 
         temporal_fig = go.Figure()
         # Add input trace
-        y_input = V[:, col_idx] if self.data_handler is None else self.data_handler.input_data_plot[feature_label].values
+        y_input = V[:, col_idx] if self.data_handler is None else input_data[feature_label].values
         temporal_fig.add_trace(
             go.Scatter(x=x, y=y_input, name="Input", line=dict(dash='dash', width=2), visible=True)
         )
-- 
2.43.0


From 9b6d480e70b5c9b77d51fbd677c9652d187b3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 101/131] fix: unit of the available memory

---
 esat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index ec0d11c..a8a16b2 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -115,13 +115,13 @@ def memory_estimate(n_features, n_samples, factors, cores: int = None):
         available_string = f"{available_memory_bytes / (1024 ** 3)} GB"
     elif max_bytes / (1024 ** 2) > 1.0:
         byte_string =  f"{np.round(max_bytes / (1024 ** 2), 4)} MB"
-        available_string = f"{available_memory_bytes / (1024 ** 2)} GB"
+        available_string = f"{available_memory_bytes / (1024 ** 2)} MB"
     elif max_bytes / (1024) > 1.0:
         byte_string =  f"{np.round(max_bytes / (1024), 4)} KB"
-        available_string = f"{available_memory_bytes / (1024)} GB"
+        available_string = f"{available_memory_bytes / (1024)} KB"
     else:
         byte_string =  f"{np.round(max_bytes, 4)} Bytes"
-        available_string = f"{available_memory_bytes} GB"
+        available_string = f"{available_memory_bytes} Bytes"
 
     return {
         "max_cores": max_cores,
-- 
2.43.0


From f87a2c5bbd03aed247f4d4785a0839bf0e135c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 102/131] fix: the index column of the run configuration can be
 a position

---
 esat/cli/esat_cli.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..245e2e7 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -33,7 +33,12 @@ except importlib.metadata.PackageNotFoundError as ex:
     VERSION = "NA"
 
 
-def get_dh(input_path, uncertainty_path, index_col):
+def get_dh(input_path, uncertainty_path, index_col=None):
+    # a number in the configuration file is the position of the index column, anything else is its name
+    if index_col is not None and index_col.strip().isdigit():
+        index_col = int(index_col)
+    elif index_col == "":
+        index_col = None
     dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
     return dh
 
@@ -75,7 +80,7 @@ def get_batchsa(project_directory):
 
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
@@ -376,7 +381,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_data_uncertainty(feature_idx=feature_idx)
 
 
@@ -396,7 +401,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_data(x_idx=feature_idx1, y_idx=feature_idx2)
 
 
@@ -414,7 +419,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_timeseries(feature_selection=list(feature_idx))
 
 
@@ -438,7 +443,7 @@ def estimate(project_directory):
         data_df, uncertainty_df = sim.get_data()
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     factor_estimator = FactorEstimator(V=V, U=U)
     estimator_results = factor_estimator.run(
@@ -470,7 +475,7 @@ def run(project_directory):
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     sa_models = BatchSA(V=V, U=U, **config["parameters"])
     sa_models.details()
@@ -744,7 +749,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     config = get_config(project_directory=project_directory)
     e_config = get_config(project_directory=project_directory, error=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -936,7 +941,7 @@ def run_constrained(project_directory):
     config = get_config(project_directory=project_directory)
     c_config = get_config(project_directory=project_directory, constrained=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From 3e40fd1b27009e7a2a52a747a8d1bf090a43ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 103/131] fix: solution analysis commands process the input
 data

---
 esat/cli/esat_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 245e2e7..054ac8c 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -81,6 +81,7 @@ def get_batchsa(project_directory):
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
+    dh.get_data()
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
-- 
2.43.0


From 8880bf49275a88e7502159e829886773877af187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 104/131] fix: analysis-input plot-timeseries

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 054ac8c..f1fc26b 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -421,7 +421,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
-    dh.plot_feature_timeseries(feature_selection=list(feature_idx))
+    dh.plot_feature_timeseries(feature_selection=[feature_idx])
 
 
 @esat_cli.command()
-- 
2.43.0


From 038053d0fe79378cd171ec93ba7babd01be8e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 105/131] fix: relative project directories and the paths of
 the simulated data

---
 esat/cli/esat_cli.py | 78 ++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index f1fc26b..a0ebdf6 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -146,7 +146,7 @@ def esat_cli():
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup(project_directory):
     """
     Create the configuration file for a batch source apportionment run in the provided directory.
@@ -180,7 +180,7 @@ def simulator():
 
 
 @simulator.command(name='setup')
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup_sim(project_directory):
     """
     Create the configuration file for a batch source apportionment simulated run in the provided directory.
@@ -205,8 +205,8 @@ def setup_sim(project_directory):
     logger.info(f"New simulator configuration file created. File path: {new_sim_config_file}")
     new_config = run_config
     new_config['project']['directory'] = project_directory
-    new_config['data']['input_path'] = new_sim_config['data']['input_path']
-    new_config['data']['uncertainty_path'] = new_sim_config['data']['uncertainty_path']
+    new_config['data']['input_path'] = os.path.join(project_directory, new_sim_config['data']['input_path'])
+    new_config['data']['uncertainty_path'] = os.path.join(project_directory, new_sim_config['data']['uncertainty_path'])
     new_config_file = os.path.join(project_directory, "run_config.toml")
     with open(new_config_file, 'w') as configfile:
         new_config.write(configfile)
@@ -214,7 +214,7 @@ def setup_sim(project_directory):
 
 
 @simulator.command(name="generate")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def generate_sim(project_directory):
     """
     Generate the synthetic data and uncertainty datasets as defined in the sim_config.toml. Only required for data
@@ -241,7 +241,7 @@ def generate_sim(project_directory):
 
 
 @simulator.command(name="compare")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def compare_sim(project_directory):
     """
     Compares the models generated from the synthetic data to show how similar the modelled profiles are to the known
@@ -269,7 +269,7 @@ def compare_sim(project_directory):
 
 
 @simulator.command(name="plot")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_sim(project_directory):
     """
     Plots the results of the simulator output comparison to the synthetic profiles.
@@ -302,7 +302,7 @@ def analysis_batch():
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_loss(project_directory):
     """
     Plots the loss value Q(true) over the training iterations for the batch solution.
@@ -323,7 +323,7 @@ def plot_loss(project_directory):
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_distribution(project_directory):
     """
     Plots the loss value distribution Q(true) and Q(robust) for the batch solution.
@@ -352,7 +352,7 @@ def analysis_input():
 
 
 @analysis_input.command(name="metrics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def metrics(project_directory):
     """
     Display the input metrics for the input/uncertainty data specified in the configuration file.
@@ -369,7 +369,7 @@ def metrics(project_directory):
 
 
 @analysis_input.command(name="plot-feature")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The index of the input/uncertainty data feature, "
                                                                "column in the dataset.", show_default=True)
 def plot_input_uncertainty(project_directory, feature_idx):
@@ -387,7 +387,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
 
 @analysis_input.command(name="plot-data")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--feature_idx1", type=int, default=0, help="The index of the first (x-axis) input data feature, "
                                                                 "column in the dataset.", show_default=True)
 @click.option('-y', "--feature_idx2", type=int, default=1, help="The index of the second (y-axis) input data feature, "
@@ -407,7 +407,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 
 @analysis_input.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
                                                                "columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
@@ -425,7 +425,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def estimate(project_directory):
     """
     Run a factor estimation using the provided configuration file.
@@ -456,7 +456,7 @@ def estimate(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run(project_directory):
     """
     Run a batch source apportionment run using the provided configuration file.
@@ -498,7 +498,7 @@ def analysis_solution():
 
 
 @analysis_solution.command(name="plot-residuals")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -518,7 +518,7 @@ def solution_residual_histogram(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="statistics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -538,7 +538,7 @@ def solution_statistics(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-estimated")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -558,7 +558,7 @@ def solution_estimated_observed(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -578,7 +578,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -598,7 +598,7 @@ def solution_factor_profile(project_directory, selected_model, factor_idx):
 
 
 @analysis_solution.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -617,7 +617,7 @@ def solution_factor_fingerprints(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -640,7 +640,7 @@ def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2
 
 
 @analysis_solution.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -660,7 +660,7 @@ def solution_factor_contributions(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-composition")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -679,7 +679,7 @@ def solution_factor_composition(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-surface")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -708,7 +708,7 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_error(project_directory):
     """
     Create an error estimation configuration file for the specified project.
@@ -727,7 +727,7 @@ def setup_error(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, default=False,
               help="Run the displacement (DISP) error estimation method.", show_default=True)
 @click.option("--bs", is_flag=True, prompt=False, default=False, show_default=True,
@@ -851,7 +851,7 @@ def analysis_error():
 
 
 @analysis_error.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -880,7 +880,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
 
 
 @analysis_error.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -910,7 +910,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_constrained(project_directory):
     """
     Create a configuration file for executing a constrained model run on a specified project.
@@ -929,7 +929,7 @@ def setup_constrained(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run_constrained(project_directory):
     """
     Run a constrained model with the specified configuration file.
@@ -999,7 +999,7 @@ def analysis_constrained():
 
 
 @analysis_constrained.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_results(project_directory):
     """
     Display the results of a constrained model run.
@@ -1015,7 +1015,7 @@ def constrained_results(project_directory):
 
 
 @analysis_constrained.command(name="plot-q")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-q', "--qtype", prompt_required=False, default='Aux', show_default=True,
               help="Plot the loss value for qtype: True, Robust, Aux")
 def constrained_plot_q(project_directory, qtype):
@@ -1034,7 +1034,7 @@ def constrained_plot_q(project_directory, qtype):
 
 
 @analysis_constrained.command(name="eval-constraints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_constraints(project_directory):
     """
     Display the evaluation table of the constrained model results, for each constraint.
@@ -1049,7 +1049,7 @@ def constrained_evaluate_constraints(project_directory):
 
 
 @analysis_constrained.command(name="eval-expressions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_expressions(project_directory):
     """
     Display the evaluation table of the constrained model results, for each expression.
@@ -1064,7 +1064,7 @@ def constrained_evaluate_expressions(project_directory):
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
@@ -1080,7 +1080,7 @@ def constrained_profile_contributions(project_directory, factor_idx):
 
 
 @analysis_constrained.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_factor_fingerprints(project_directory):
     """
     Display the constrained solution factor fingerprints.
@@ -1095,7 +1095,7 @@ def constrained_factor_fingerprints(project_directory):
 
 
 @analysis_constrained.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
@@ -1116,7 +1116,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
-- 
2.43.0


From 67b5b1228d9f07a8c766ef76ffbdaea005e5583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 106/131] fix: false in a configuration file is false

---
 esat/cli/esat_cli.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index a0ebdf6..3f8d1b5 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -47,7 +47,7 @@ def get_sim(sim_path, sim_parameters, sim_contributions):
     if "esat_simulator.pkl" in os.listdir(sim_path):
         sim = Simulator.load(os.path.join(sim_path, "esat_simulator.pkl"))
     else:
-        sim = Simulator(**sim_parameters)
+        sim = Simulator(**get_typed(sim_parameters, booleans=("outliers", "verbose")))
         for f_i, i_params in sim_contributions.items():
             c_params = json.loads(i_params)
             sim.update_contribution(factor_i=int(f_i), **c_params)
@@ -71,6 +71,18 @@ def get_config(project_directory, error=False, constrained=False, sim=False):
     return config
 
 
+def get_typed(parameters, booleans, integers=()):
+    # configuration values are strings, any non-empty string would be true
+    typed = dict(parameters)
+    for key in booleans:
+        if key in typed:
+            typed[key] = parameters.getboolean(key)
+    for key in integers:
+        if key in typed:
+            typed[key] = parameters.getint(key)
+    return typed
+
+
 def get_batchsa(project_directory):
     config = get_config(project_directory=project_directory)
     batch_pkl = os.path.join(config["project"]["directory"], "output", f"{config['project']['name']}.pkl")
@@ -478,7 +490,10 @@ def run(project_directory):
     else:
         dh = get_dh(**config["data"])
     V, U = dh.get_data()
-    sa_models = BatchSA(V=V, U=U, **config["parameters"])
+    sa_models = BatchSA(V=V, U=U, **get_typed(config["parameters"],
+                                              booleans=("init_norm", "parallel", "verbose", "best_robust", "hold_h",
+                                                        "use_gpu"),
+                                              integers=("cores", "delay_h")))
     sa_models.details()
     _ = sa_models.train()
     output_path = os.path.join(config["project"]["directory"], "output")
-- 
2.43.0


From 2c34f609dd966654cd0a2de49a4831201766ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 107/131] fix: default factor and feature of the plot commands,
 features of plot-surface

---
 esat/cli/esat_cli.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 3f8d1b5..5230780 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -597,7 +597,8 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The number of the factor profile, starting at 1.",
+              show_default=True)
 def solution_factor_profile(project_directory, selected_model, factor_idx):
     """
     Plot the factor profile for a specified factor index (factor_idx) and solution model (selected_model).
@@ -636,9 +637,9 @@ def solution_factor_fingerprints(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-x', "--factor_idx1", default=0, type=int, help="The index of the x-axis factor profile.",
+@click.option('-x', "--factor_idx1", default=1, type=int, help="The number of the x-axis factor profile, starting at 1.",
               show_default=True)
-@click.option('-y', "--factor_idx2", default=1, type=int, help="The index of the y-axis factor profile.",
+@click.option('-y', "--factor_idx2", default=2, type=int, help="The number of the y-axis factor profile, starting at 1.",
               show_default=True)
 def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2):
     """
@@ -698,28 +699,31 @@ def solution_factor_composition(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
-@click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
-                                                                   "include. Default: -1, includes all features which "
-                                                                   "contribution to the factor_idx. Multiple indices"
-                                                                   " can be provided.")
+@click.option('-i', "--factor_idx", default=1, type=int, help="The number of the factor profile, starting at 1, which "
+                                                              "is plotted for all features. With -1 the features are "
+                                                              "plotted for all factors instead.", show_default=True)
+@click.option('-f', "--feature_idx", type=int, multiple=True, help="The number(s) of the features, starting at 1, to "
+                                                                   "plot for all factors if factor_idx is -1. Multiple "
+                                                                   "features can be provided.")
 def solution_factor_surface(project_directory, selected_model, factor_idx, feature_idx):
     """
-    Plot factor surface for a specified factor index (factor_idx), set of features (feature_idx), and solution model
-    (selected_model). Multiple feature indices can be provided as '-f 0 -f 1 -f 2'.
+    Plot factor surface for a specified factor index (factor_idx), or set of features (feature_idx), and solution model
+    (selected_model). Multiple feature indices can be provided as '-f 1 -f 2 -f 3'.
 
     Parameters
 
     project_directory : The project directory containing .toml configuration files.
 
     """
-    feature_idx = feature_idx if len(feature_idx) > 0 else -1
     ma, selected_i = get_model_analysis(project_directory=project_directory, selected_model=selected_model)
     factor_idx = factor_idx if factor_idx != -1 else None
-    feature_idx = feature_idx if feature_idx != -1 else None
     logger.info(f"ESAT Solution Factor Surface for model: {selected_i}, factor index: {factor_idx}, "
                 f"feature index: {feature_idx}")
-    ma.plot_factor_surface(feature_idx=feature_idx, factor_idx=factor_idx)
+    if factor_idx is not None or len(feature_idx) == 0:
+        ma.plot_factor_surface(factor_idx=factor_idx)
+    else:
+        for idx in feature_idx:
+            ma.plot_factor_surface(factor_idx=None, feature_idx=idx)
 
 
 @esat_cli.command()
@@ -902,7 +906,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
               help="Summarize the bootstrap (BS) error estimation results.")
 @click.option("--bsdisp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the bootstrap-displacement (BSDISP) error estimation results.")
-@click.option("--factor_idx", default=0, type=int, help="The factor index to display results.")
+@click.option("--factor_idx", default=1, type=int, help="The factor number to display results, starting at 1.")
 def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     """
     Show the results of an error estimation method. One method must be selected.
@@ -1080,7 +1084,8 @@ def constrained_evaluate_expressions(project_directory):
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
+@click.option('-i', "--factor_idx", default=1, type=int, show_default=True,
+              help="The factor number to plot, starting at 1.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
     Display a specified factor profile and contributions plot for the constrained model solution.
@@ -1111,8 +1116,10 @@ def constrained_factor_fingerprints(project_directory):
 
 @analysis_constrained.command(name="plot-gspace")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
-@click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
+@click.option('-x', "--factor_idx1", default=1, type=int, show_default=True,
+              help="The factor number for the x-axis, starting at 1.")
+@click.option('-y', "--factor_idx2", default=2, type=int, show_default=True,
+              help="The factor number for the y-axis, starting at 1.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the base solution values.")
 @click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
@@ -1132,7 +1139,8 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
+@click.option('-i', "--feature_idx", default=1, type=int, show_default=True,
+              help="The feature number to display, starting at 1.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
-- 
2.43.0


From 094c0f43d1aa9b29d7fa4980abedd6ef1c5e6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 108/131] fix: error estimation of the constrained model

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 5230780..60cc37c 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -778,7 +778,7 @@ def run_error(project_directory, disp, bs, bsdisp):
 
     if e_config["project"]["constrained_config"] != "":
         constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
+                                       f"constrained_model-{config['project']['name']}.pkl")
         c_solution = ConstrainedModel.load(file_path=constrained_pkl)
         logger.info("Using existing constrained model.")
         selected_i = -1
-- 
2.43.0


From ad5ddd0a53cb47b7252abb612b4d7121554d08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 109/131] fix: run-error --bsdisp uses its own features and
 runs without --bs

---
 esat/cli/esat_cli.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 60cc37c..7f3ac24 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -803,13 +803,14 @@ def run_error(project_directory, disp, bs, bsdisp):
         disp.save(disp_name=f"disp-{config['project']['name']}", output_directory=error_dir, pickle_result=True)
         disp.save(disp_name=f"disp-{config['project']['name']}", output_directory=error_dir, pickle_result=False)
         logger.info("DISP completed.")
+    bs_solution = None
     if bs:
         block_size = int(e_config["bs"]["block_size"])
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bs"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
         logger.info(f"Running BS on model {selected_i}, block size: {block_size}, seed: {seed}")
-        bs = Bootstrap(
+        bs_solution = Bootstrap(
             sa=selected_model,
             feature_labels=dh.features,
             model_selected=selected_i,
@@ -818,19 +819,18 @@ def run_error(project_directory, disp, bs, bsdisp):
             threshold=float(e_config["bs"]["threshold"]),
             seed=seed
         )
-        bs.run()
-        bs.save(bs_name=f"bs-{config['project']['name']}", output_directory=error_dir, pickle_result=True)
-        bs.save(bs_name=f"bs-{config['project']['name']}", output_directory=error_dir, pickle_result=False)
+        bs_solution.run()
+        bs_solution.save(bs_name=f"bs-{config['project']['name']}", output_directory=error_dir, pickle_result=True)
+        bs_solution.save(bs_name=f"bs-{config['project']['name']}", output_directory=error_dir, pickle_result=False)
         logger.info("BS Completed.")
     if bsdisp:
         block_size = int(e_config["bsdisp"]["block_size"])
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
-        logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
         logger.info(f"Running BSDISP on model {selected_i}, features: {features_label}")
         _bs = None
         if e_config["bsdisp"]["bootstrap_output"] != "":
@@ -838,8 +838,8 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
-            _bs = bs
+        elif bs_solution is not None:
+            _bs = bs_solution
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
             sa=selected_model,
-- 
2.43.0


From 5b9ed67453fd0d01e52e91fcc23a7881b6e4c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 110/131] fix: analysis-error commands accept one method

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7f3ac24..7491a48 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -886,7 +886,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -916,7 +916,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From 26e18e45d0c8d39c5ca389a3a9b18e1d05849ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 111/131] fix: analysis-constrained profile plot and g-space
 options

---
 esat/cli/esat_cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7491a48..6495144 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1082,7 +1082,7 @@ def constrained_evaluate_expressions(project_directory):
     c_model.evaluate_expressions()
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-profile")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=1, type=int, show_default=True,
               help="The factor number to plot, starting at 1.")
@@ -1120,9 +1120,9 @@ def constrained_factor_fingerprints(project_directory):
               help="The factor number for the x-axis, starting at 1.")
 @click.option('-y', "--factor_idx2", default=2, type=int, show_default=True,
               help="The factor number for the y-axis, starting at 1.")
-@click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_base/--hide_base", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the base solution values.")
-@click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_delta/--hide_delta", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the change between the constrained solution values and  the base solution values")
 def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base, show_delta):
     """
@@ -1141,7 +1141,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=1, type=int, show_default=True,
               help="The feature number to display, starting at 1.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From cd69ae1329dbaae12f5e3c5aba45773c9ec1c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 112/131] fix: esat_cli run as a script

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 6495144..8130b8e 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1155,4 +1155,4 @@ def constrained_factor_contributions(project_directory, feature_idx):
 
 
 if __name__ == "__main__":
-    typer.run(esat_cli)
+    esat_cli()
-- 
2.43.0


From c022c3c3a6e1b2b5e0e63fb2b48185573972f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 113/131] fix: estimate and run use the generated synthetic
 data

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 8130b8e..2af308a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -453,7 +453,7 @@ def estimate(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
         dh = get_dh(**config["data"])
@@ -484,7 +484,7 @@ def run(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-- 
2.43.0


From ca7c5e3717ce08b41b1b20bcbe68ab32e1439d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 114/131] fix: constrained plots of data with dropped samples
 or excluded features

---
 esat/rotational/constrained.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 9da8c24..2ea739d 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -760,6 +760,14 @@ class ConstrainedModel:
                     f"Base Q(True): {round(self.base_model.Qtrue, 2)}, "
                     f"Converged: {self.constrained_model.converged}")
 
+    def _sample_index(self):
+        """
+        The times of the samples in the model, samples with missing values are not part of it once the data have been
+        processed.
+        """
+        data_df = self.dh.input_data if self.dh.input_data_df is None else self.dh.input_data_df
+        return pd.to_datetime(data_df.index)
+
     def plot_Q(self, Qtype: str = 'True'):
         """
         Plot the loss value Q as it changes over iterations. Four options for Qtype are available.
@@ -987,16 +995,12 @@ class ConstrainedModel:
         i_W = self.constrained_model.W[:, factor_idx]
 
         b_norm_contr = b_W / b_W.mean()
-        b_data_df =  copy.copy(self.dh.input_data)
-        b_data_df[factor_label] = b_norm_contr
-        b_data_df.index = pd.to_datetime(b_data_df.index)
+        b_data_df = pd.DataFrame({factor_label: b_norm_contr}, index=self._sample_index())
         b_data_df = b_data_df.sort_index()
         b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
 
         i_norm_contr = i_W / i_W.mean()
-        i_data_df =  copy.copy(self.dh.input_data)
-        i_data_df[factor_label] = i_norm_contr
-        i_data_df.index = pd.to_datetime(i_data_df.index)
+        i_data_df = pd.DataFrame({factor_label: i_norm_contr}, index=self._sample_index())
         i_data_df = i_data_df.sort_index()
         i_data_df = i_data_df.resample(min_timestep(i_data_df)).mean()
 
@@ -1117,7 +1121,7 @@ class ConstrainedModel:
             feature_idx = feature_idx - 1
         else:
             feature_idx = 0
-        x_label = self.dh.input_data.columns[feature_idx]
+        x_label = self.dh.features[feature_idx]
         factors_data = self.constrained_model.H
         normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
 
@@ -1142,7 +1146,7 @@ class ConstrainedModel:
         normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
-        contr_df.index = pd.to_datetime(self.dh.input_data.index)
+        contr_df.index = self._sample_index()
         contr_df = contr_df.sort_index()
         contr_df = contr_df.resample(min_timestep(contr_df)).mean()
 
-- 
2.43.0


From 702e209a05e72614b27ae9f7226510451bcde8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 115/131] fix: run-error and run-constrained use the processed
 data

---
 esat/cli/esat_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 2af308a..248bd7c 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -770,6 +770,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     e_config = get_config(project_directory=project_directory, error=True)
 
     dh = get_dh(**config["data"])
+    dh.get_data()
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -962,6 +963,7 @@ def run_constrained(project_directory):
     c_config = get_config(project_directory=project_directory, constrained=True)
 
     dh = get_dh(**config["data"])
+    dh.get_data()
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From 581212a1ff51fd46a280d7776b9b456d089e584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 116/131] fix: the minimum timestep is exact

---
 esat/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index a8a16b2..0fa1aa2 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -46,14 +46,15 @@ def min_timestep(data: pd.DataFrame):
     time_delta = time_delta[time_delta > pd.Timedelta(0)]
     if len(time_delta) == 0:
         return "D"
-    if time_delta.min().days >= 1:
-        resample = f"{int(time_delta.min().days)}D"
-    elif time_delta.min().seconds < 60:
-        resample = f"{max(1, time_delta.min().seconds)}s"
-    elif time_delta.min().seconds < 60 * 60:
-        resample = f"{int(time_delta.min().seconds / 60)}min"
+    seconds = max(1, int(time_delta.min().total_seconds()))
+    if seconds % (24 * 60 * 60) == 0:
+        resample = f"{seconds // (24 * 60 * 60)}D"
+    elif seconds % (60 * 60) == 0:
+        resample = f"{seconds // (60 * 60)}h"
+    elif seconds % 60 == 0:
+        resample = f"{seconds // 60}min"
     else:
-        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
+        resample = f"{seconds}s"
     return resample
 
 def calculate_factor_correlation(factor1, factor2):
-- 
2.43.0


From de267661e64cd2b9419331abc057bd884f2b652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 117/131] fix: time series plots show the values at their own
 times

---
 esat/data/analysis.py          |  8 ++++----
 esat/data/datahandler.py       |  7 ++-----
 esat/rotational/constrained.py |  8 ++++----
 esat/utils.py                  | 24 ++++++++++++++++++++++++
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index dccc708..0c06415 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -10,7 +10,7 @@ from plotly.subplots import make_subplots
 from esat.data.datahandler import DataHandler
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
-from esat.utils import min_timestep
+from esat.utils import break_time_gaps
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
@@ -384,7 +384,7 @@ class ModelAnalysis:
                                index=self.dh.input_data_plot.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
-        data_df = data_df.resample(min_timestep(data_df)).mean()
+        data_df = break_time_gaps(data_df)
 
         ts_subplot = make_subplots(rows=2, cols=1, shared_xaxes=True, vertical_spacing=0.01, row_heights=[0.8, 0.2])
 
@@ -460,7 +460,7 @@ class ModelAnalysis:
         data_df[factor_label] = norm_contr
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
-        data_df = data_df.resample(min_timestep(data_df)).mean()
+        data_df = break_time_gaps(data_df)
 
         profile_plot = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
         profile_plot.add_trace(go.Scatter(x=self.dh.features, y=norm_profile, mode='markers', marker=dict(color='red'),
@@ -812,7 +812,7 @@ class ModelAnalysis:
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
         contr_df = contr_df.sort_index()
-        contr_df = contr_df.resample(min_timestep(contr_df)).mean()
+        contr_df = break_time_gaps(contr_df)
 
         contr_fig = go.Figure()
         for factor in factor_labels:
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ad8e1db..cc873cd 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -11,7 +11,7 @@ import plotly.colors as plotly_colors
 from scipy.stats import gaussian_kde
 
 from esat.model.recombinator import optimal_block_length
-from esat.utils import min_timestep
+from esat.utils import break_time_gaps
 
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
@@ -676,10 +676,7 @@ class DataHandler:
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
 
-        freq = min_timestep(data_df)
-        if not freq or freq == "0s":
-            freq = "D"
-        data_df = data_df.resample(freq).mean()
+        data_df = break_time_gaps(data_df)
         x = list(data_df.index)
         ts_plot = go.Figure()
         for feature_i in feature_label:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 2ea739d..95a2d8f 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -3,7 +3,7 @@ import os
 import re
 from esat.model.sa import SA
 from esat.data.datahandler import DataHandler
-from esat.utils import np_encoder, min_timestep
+from esat.utils import np_encoder, break_time_gaps
 from esat.metrics import q_loss, qr_loss
 from tqdm import trange
 from datetime import datetime
@@ -997,12 +997,12 @@ class ConstrainedModel:
         b_norm_contr = b_W / b_W.mean()
         b_data_df = pd.DataFrame({factor_label: b_norm_contr}, index=self._sample_index())
         b_data_df = b_data_df.sort_index()
-        b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
+        b_data_df = break_time_gaps(b_data_df)
 
         i_norm_contr = i_W / i_W.mean()
         i_data_df = pd.DataFrame({factor_label: i_norm_contr}, index=self._sample_index())
         i_data_df = i_data_df.sort_index()
-        i_data_df = i_data_df.resample(min_timestep(i_data_df)).mean()
+        i_data_df = break_time_gaps(i_data_df)
 
 
         fig = go.Figure()
@@ -1148,7 +1148,7 @@ class ConstrainedModel:
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = self._sample_index()
         contr_df = contr_df.sort_index()
-        contr_df = contr_df.resample(min_timestep(contr_df)).mean()
+        contr_df = break_time_gaps(contr_df)
 
         contr_fig = go.Figure()
         for factor in factor_labels:
diff --git a/esat/utils.py b/esat/utils.py
index 0fa1aa2..f4ef0f4 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -57,6 +57,30 @@ def min_timestep(data: pd.DataFrame):
         resample = f"{seconds}s"
     return resample
 
+
+def break_time_gaps(data: pd.DataFrame):
+    """
+    Prepare a time series for plotting as a line: one row for each time, in order, and an empty row after every time
+    which is followed by at least one missing timestep, so that the line is interrupted there.
+
+    Parameters
+    ----------
+    data
+        Dataframe with a datetime index.
+
+    Returns
+    -------
+    pd.DataFrame
+        The rows at their own times, the mean of rows with the same time, with the empty rows added.
+    """
+    data = data.groupby(level=0).mean()
+    time_delta = data.index[1:] - data.index[:-1]
+    if len(time_delta) == 0:
+        return data
+    gaps = data.index[:-1][time_delta >= 2 * time_delta.min()] + time_delta.min()
+    return data.reindex(data.index.union(gaps))
+
+
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
     factor2 = factor2.astype(float)
-- 
2.43.0


From 1191fe138785c3dbedf7a2496b02fc0c7d31161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 118/131] fix: the time series plot takes feature indices
 modulo the number of features

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cc873cd..327e808 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -661,7 +661,7 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[0]
+            feature_selection = feature_selection % self.input_data_plot.shape[1]
             feature_selection = self.input_data_plot.columns[feature_selection]
             feature_label = [feature_selection]
         else:
-- 
2.43.0


From 885ab8aaf2e488e9ef283028b75c558394208563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 119/131] fix: BS-DISP plots use the documented default for an
 invalid dQ

---
 esat/error/bs_disp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index d1d7a41..08b2d75 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -339,7 +339,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
@@ -381,7 +381,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
-- 
2.43.0


From f934620328db9c7978bfec18fa463dbd5f6759c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 120/131] fix: a parallel batch with a callback which cannot be
 pickled is trained

---
 esat/model/batch_sa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index f342fd4..a015afc 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -253,7 +253,8 @@ class BatchSA:
                         input_parameters.append((
                             _sa, i, progress_queue, log_queue,
                             self.max_iter, self.converge_delta, self.converge_n,
-                            self.update_step, self.hold_h, self.delay_h, self.progress_callback
+                            # progress is reported through the queue, the callback may not be picklable
+                            self.update_step, self.hold_h, self.delay_h, None
                         ))
                     logger.info("Input parameters for multiprocessing prepared.")
 
-- 
2.43.0


From 8d4b010debd2fd316cdc3dacf44c271e77389b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 121/131] fix: the time limit of a batch also ends models which
 took longer than a day

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index a015afc..bd3330b 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -317,7 +317,7 @@ class BatchSA:
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-                        if min_limit and t_delta.seconds / 60 > min_limit:
+                        if min_limit and t_delta.total_seconds() / 60 > min_limit:
                             logger.warning(f"SA model training time exceeded specified runtime limit.")
                             return False, f"Error: Model train time: {t_delta} exceeded runtime limit: {min_limit} min(s)"
                         if run == -1:
-- 
2.43.0


From 9420314ff230006e49f3b7aad2e1f6797417214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 122/131] fix: the errors of the factor estimation are not
 rounded to five decimals

---
 esat/estimator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index d4804f5..5549c2d 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -82,8 +82,9 @@ class FactorEstimator:
         train_residuals = np.multiply(mask, s_residuals)
 
         test_residuals = np.multiply(i_mask, s_residuals)
-        train_mse = np.round(train_residuals.sum()/m_train, 5)
-        test_mse = np.round(test_residuals.sum()/m_test, 5)
+        # not rounded, the errors of data in large units are small
+        train_mse = train_residuals.sum()/m_train
+        test_mse = test_residuals.sum()/m_test
         return train_mse, test_mse, factor_n, _sa.Qtrue, _sa.Qrobust
 
     def run(self, samples: int = 200, min_factors: int = 2, max_factors: int = 15, max_iterations: int = 2000,
-- 
2.43.0


From 0b57cc1177369768da3da87e405a6644ab763b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 123/131] fix: the largest significant lag of the optimal block
 length counts from one

---
 esat/model/recombinator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/recombinator.py b/esat/model/recombinator.py
index 97516a0..60aa3cb 100644
--- a/esat/model/recombinator.py
+++ b/esat/model/recombinator.py
@@ -167,7 +167,7 @@ def optimal_block_length(data: np.ndarray) -> tp.Sequence[OptimalBlockLength]:
         if temp3.size == 0:
             # this means that NO collection of kn auto-correlations were all
             # insignificant, so pick largest significant lag
-            m_hat = max(
+            m_hat = 1 + max(
                 np.flatnonzero(np.abs(temp) > (c * np.sqrt(np.log10(n) / n))))
         else:
             # if more than one collection is possible, choose the smallest m
-- 
2.43.0


From 0a1b75e7e67f27e26a28e62b4c8d906b64b2694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 124/131] fix: samples without a location are loaded and kept
 together when splitting

---
 esat/data/datahandler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 327e808..e559e4e 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -191,11 +191,11 @@ class DataHandler:
 
         for _, loc in locations.iterrows():
             if set(self.loc_cols) == {"latitude", "longitude"}:
-                loc_filter = (rounded_input[self.loc_cols].round(5) == loc.values).all(axis=1)
+                loc_filter = self._same_location(rounded_input[self.loc_cols].round(5), loc)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
             else:
-                loc_filter = (self.input_data[self.loc_cols] == loc.values).all(axis=1)
+                loc_filter = self._same_location(self.input_data[self.loc_cols], loc)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
@@ -206,6 +206,13 @@ class DataHandler:
 
         return data_handlers
 
+    @staticmethod
+    def _same_location(locations: pd.DataFrame, loc: pd.Series):
+        """
+        The samples at a location, where a missing value equals a missing value.
+        """
+        return ((locations == loc.values) | (locations.isna() & pd.isna(loc.values))).all(axis=1)
+
     def merge(self, data_handlers: list, source_labels: list):
         """
         Merge a list of DataHandler instances into this DataHandler instance.
@@ -401,8 +408,9 @@ class DataHandler:
         self.input_data = self.input_data[~nan_rows]
         self.uncertainty_data = self.uncertainty_data[~nan_rows]
 
-        self.min_values = self.input_data.min(axis=0)
-        self.max_values = self.input_data.max(axis=0)
+        # location columns can hold names with missing values, which have no minimum
+        self.min_values = self._feature_data(self.input_data).min(axis=0)
+        self.max_values = self._feature_data(self.input_data).max(axis=0)
 
         c_df = self._feature_data(self.input_data).copy()
         u_df = self._feature_data(self.uncertainty_data).copy()
-- 
2.43.0


From ddca47403e66915e994d6b238e4bf724d853653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 125/131] fix: estimates of samples with equal times are shown
 and aggregated

---
 esat/data/analysis.py    | 11 +++++++----
 esat/data/datahandler.py |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0c06415..a6c6ba8 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -377,11 +377,14 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature].values
+        observed_data = self.dh.input_data_plot[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
-
-        data_df = pd.DataFrame(data={"observed": observed_data, "predicted": predicted_data},
-                               index=self.dh.input_data_plot.index)
+        if len(self.dh.input_data) <= self.dh.max_plotting_n:
+            # the samples of the model, by position as several samples can have the same time
+            observed_data = self.dh.input_data_df[feature]
+            predicted_data = predicted_data.values
+        data_df = pd.DataFrame(data={"observed": observed_data.values, "predicted": predicted_data},
+                               index=observed_data.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
         data_df = break_time_gaps(data_df)
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e559e4e..d8617db 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -343,10 +343,12 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
+        self.complete_rows = np.ones(len(_input_data), dtype=bool)
         if self.drop_nans:
             complete_rows = ~_input_nans & ~_uncertainty_nans
             _input_data = _input_data[complete_rows]
             _uncertainty_data = _uncertainty_data[complete_rows]
+            self.complete_rows = complete_rows.to_numpy()
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
@@ -506,7 +508,8 @@ class DataHandler:
                 # the same samples are aggregated as in the input data
                 binned = self._agg_groups[col]
                 if len(binned) != len(output_df):
-                    binned = binned.loc[self.input_data_df.index]
+                    # by position, several samples can have the same time
+                    binned = binned[self.complete_rows]
                 agg_means = output_df.groupby(binned.to_numpy())[col].mean()
                 # a bin without a sample in the output stays empty, so that the bins are those of the input
                 agg_output[col] = agg_means.reindex(np.unique(self._agg_groups[col].dropna())).reset_index(drop=True)
-- 
2.43.0


From 13fe4d6333d6b3655fc14c38d7ae8e67f8eb6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 126/131] fix: repeated elements of an expression use all their
 coefficients

---
 esat/rotational/constrained.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 95a2d8f..cce46c6 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -576,6 +576,10 @@ class ConstrainedModel:
                     if e_terms0 not in exp_mapping.keys():
                         exp_mapping[e_terms0] = {"coef": [e_coef], "exp_i": [exp_i], "index": e_index, "type": e_terms1[2], "coef_index": terms}
                         terms += 1
+                    elif e_terms0 in expression_labeled:
+                        # the coefficients of an element which is repeated in the expression add up
+                        exp_mapping[e_terms0]["coef"][-1] += e_coef
+                        continue
                     else:
                         exp_mapping[e_terms0]["coef"].append(e_coef)
                         exp_mapping[e_terms0]["exp_i"].append(exp_i)
-- 
2.43.0


From 3a2dc6285c42bf0aea32cf460d6ce646eff41b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 127/131] fix: the ridgeline plot leaves out features without a
 density

---
 esat/data/datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d8617db..ffdc9d8 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -853,6 +853,10 @@ class DataHandler:
             data = self.input_data_plot[col].dropna().values
             if log_x:
                 data = data[data > 0]
+            if len(data) < 2 or np.ptp(np.log10(data) if log_x else data) == 0:
+                # constant features have no density
+                continue
+            if log_x:
                 log_data = np.log10(data)
                 x_grid = np.linspace(log_data.min(), log_data.max(), nbins)
                 actual_x = 10 ** x_grid
@@ -861,8 +865,6 @@ class DataHandler:
                 feature_names = np.full_like(x_grid, col, dtype=object)
                 customdata = np.stack([actual_x, x_grid, feature_names], axis=-1)
             else:
-                if len(data) < 2:
-                    continue
                 x_grid = np.linspace(data.min(), data.max(), nbins)
                 kde = gaussian_kde(data)
                 y = kde(x_grid)
-- 
2.43.0


From 14f136df864952fefd5a50ba738873d9c3ac625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 128/131] fix: configuration values can contain a percent sign

---
 esat/cli/esat_cli.py | 2 +-
 esat/configs.py      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 248bd7c..8b68849 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -66,7 +66,7 @@ def get_config(project_directory, error=False, constrained=False, sim=False):
         config_file = os.path.join(project_directory, "sim_config.toml")
     else:
         config_file = os.path.join(project_directory, "run_config.toml")
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_file)
     return config
 
diff --git a/esat/configs.py b/esat/configs.py
index 5bc2f28..adce373 100644
--- a/esat/configs.py
+++ b/esat/configs.py
@@ -2,7 +2,7 @@ import configparser
 
 
 # ------- SIMULATOR Configuration -------- #
-sim_config = configparser.ConfigParser()
+sim_config = configparser.ConfigParser(interpolation=None)
 sim_config['project'] = {
     "directory": "."
 }
@@ -34,7 +34,7 @@ sim_config['contributions'] = {
 }
 
 # ------- RUN Configuration --------- #
-run_config = configparser.ConfigParser()
+run_config = configparser.ConfigParser(interpolation=None)
 run_config['project'] = {
     "name": "",
     "directory": ".",
@@ -64,7 +64,7 @@ run_config['parameters'] = {
 }
 
 # -------- ERROR Configuration -------- #
-error_config = configparser.ConfigParser()
+error_config = configparser.ConfigParser(interpolation=None)
 error_config["project"] = {
     "project_config": "",
     "constrained_config": "",
@@ -91,7 +91,7 @@ error_config["bsdisp"] = {
 }
 
 # -------- CONSTRAINED Configuration -------- #
-constrained_config = configparser.ConfigParser()
+constrained_config = configparser.ConfigParser(interpolation=None)
 constrained_config["project"] = {
     "project_config": ""
 }
-- 
2.43.0


From a0320b52fdae99b3f044b3b3848e887385c3eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 129/131] fix: factors which vanish numerically do not make the
 least-squares update undefined

---
 esat/model/ls_nmf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/model/ls_nmf.py b/esat/model/ls_nmf.py
index 37f078f..a6b7e4c 100644
--- a/esat/model/ls_nmf.py
+++ b/esat/model/ls_nmf.py
@@ -41,11 +41,12 @@ class LSNMF:
             WH = np.matmul(W, H)
             H_num = np.matmul(W.T, WeV)
             H_den = np.matmul(W.T, np.multiply(We, WH))
-            H = np.multiply(H, np.divide(H_num, H_den, out=np.zeros_like(H_den), where=H_den != 0.0))
+            # a denominator below the smallest normal number is no longer a divisor, the quotient would not be finite
+            H = np.divide(np.multiply(H, H_num), H_den, out=np.zeros_like(H_den), where=H_den >= np.finfo(H_den.dtype).tiny)
 
         WH = np.matmul(W, H)
         W_num = np.matmul(WeV, H.T)
         W_den = np.matmul(np.multiply(We, WH), H.T)
-        W = np.multiply(W, np.divide(W_num, W_den, out=np.zeros_like(W_den), where=W_den != 0.0))
+        W = np.divide(np.multiply(W, W_num), W_den, out=np.zeros_like(W_den), where=W_den >= np.finfo(W_den.dtype).tiny)
 
         return W, H
-- 
2.43.0


From eb06f601a84aad4bdbea71b0d1d50c11bc9c5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 130/131] fix: the largest dQ decrease and the number of Q
 drops count decreases of Q, not increases

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 2e3e254..5739ac9 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -327,7 +327,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else disp_i_sa.Qtrue - self.base_Q}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.increase_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -417,7 +417,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else disp_i_sa.Qtrue - self.base_Q}
         return factor_i, feature_j, i_results
 
     def _decrease_disp(self, batch: int = -1):
@@ -481,7 +481,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": np.nan if disp_i_sa.Qtrue is None else disp_i_sa.Qtrue - self.base_Q}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.decrease_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -555,7 +555,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": np.nan if disp_i_sa.Qtrue is None else disp_i_sa.Qtrue - self.base_Q}
         return factor_i, feature_j, i_results
 
     def _compile_results(self):
-- 
2.43.0


From fcd5d22db4486f24981093edf7f80826f187da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 131/131] fix: running DISP or BS-DISP again does not count the
 displacements of the previous run

---
 esat/error/bs_disp.py      | 5 +++++
 esat/error/displacement.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 08b2d75..776a190 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -222,6 +222,11 @@ class BSDISP:
         """
         Calculate the merging statistics and metrics for the bs-disp results.
         """
+        # only the displacements of this run are counted
+        self.swap_table = np.zeros_like(self.swap_table)
+        self.count_table = np.zeros_like(self.count_table)
+        self.n_drops = 0
+        self.disp_swap = 0
         key0 = list(self.disp_results.keys())[0]
         disp_result = self.disp_results[key0].compiled_results
         profiles_max = disp_result["profile_max"]
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 5739ac9..5e83f50 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -565,6 +565,9 @@ class Displacement:
         Results are found in the self.compiled_results dataframe.
 
         """
+        # only the displacements of this run are counted
+        self.swap_table = np.zeros_like(self.swap_table)
+        self.count_table = np.zeros_like(self.count_table)
         scaled_profiles = self.H / self.H.sum(axis=0)
         compiled_data = {"dQ": [], "factor": [], "feature": [], "profile": [], "profile_max": [], "profile_min": [],
                          "conc": [], "conc_max": [], "conc_min": [], "dQ_drop": []}
-- 
2.43.0

