From 0b0a6a130a538be839f842b8db995cdb628a22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:12 +0000
Subject: [PATCH 01/72] fix: recognize only the model's own state files (escape
 name, anchor extension)

---
 .../procedures/model_state_files.py                    |  8 ++++----
 .../model_architectures/procedures/model_training.py   | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..97fd020 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -293,8 +293,8 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'-[0-9]+' + r'\.pt$', filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
@@ -327,8 +327,8 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
+    is_best_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                        + r'(-[0-9]+)?' + r'-best' + r'\.pt$',
                                         filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..031ef14 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'_optim' + r'(-[0-9]+)?' + r'-best'
+                                   + r'\.pt$', filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,8 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                             + r'_optim' + r'-[0-9]+' + r'\.pt$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From 6a45df3194f63a67344c2a89c1f50c28b6ce611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:12 +0000
Subject: [PATCH 02/72] fix: best state file saved without epoch can be
 recognized and loaded

---
 .../model_architectures/procedures/model_state_files.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index 97fd020..ffb5db5 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -333,8 +333,11 @@ def check_best_state_file(model, filename):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_best_state_file:
-        # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        # Get model state epoch (unknown if state was saved without epoch)
+        epoch_str = \
+            filename[len(model.model_name):-len('-best.pt')].lstrip('-')
+        if epoch_str:
+            epoch = int(epoch_str)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
-- 
2.43.0


From d27800ecff327022ff5c9d2c9acfef18e22ca9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:28 +0000
Subject: [PATCH 03/72] fix: loading a missing model state no longer deletes
 the posterior state files

---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index ffb5db5..942f06a 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -265,6 +253,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         raise RuntimeError('Model state file has not been found:\n\n'
                            + model_path)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Load model state
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
-- 
2.43.0


From b39edf4f67779691c84b40d019a7a99ab96b03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 04/72] fix: seeded training and prediction pass data loader
 options as keyword arguments

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..0d8c637 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..e5efff6 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..09fc5fd 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..fa3f833 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..ea4812c 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..bf46cd9 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From 74e7b9a03f73ebd3d7a5c0fffc74261aff6e0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 05/72] fix: average epoch time counts epoch zero (single-epoch
 training divided by zero)

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index e5efff6..9f7eac4 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index fa3f833..5748bd0 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index bf46cd9..047f5c6 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 4a14d997c4d6274f151eaf34a737868b9ca1fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 06/72] fix: epoch average of model parameters no longer
 includes the previous epoch's last step

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index c5a4f7a..78b1609 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -316,7 +316,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
             # Loop over parameters
             for key in model_init_parameters.keys():
                 model_parameters_history_epochs[key].append(np.mean(
-                    model_parameters_history_steps[key][epoch_init_step:]))
+                    model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 9f7eac4..c89831e 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -436,7 +436,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 5748bd0..24a3464 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -490,7 +490,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
-- 
2.43.0


From e650b6a2110597e09cb5b76bb2bf35225a4e8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 07/72] fix: early stopping of recurrent constitutive and
 hybrid models passes the state type

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index c89831e..c74a0a1 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 24a3464..5a82a51 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From ad882ab19bb8d9f4a457137d4f8cd04656a59a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 08/72] fix: parameters convergence check no longer discards
 the early stopping decision

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 5a82a51..f414e6d 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From ad2bb1c8853a8af3cc8f1518d04647b7680abf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 09/72] fix: updating the directory of a stored data set no
 longer raises TypeError

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..d989452 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -829,8 +829,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From 0f1b4a2ccbec2983d3979799affe320dc4ea455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:33 +0000
Subject: [PATCH 10/72] fix: changing features labels of an in-memory data set
 no longer raises TypeError

---
 src/hookeai/time_series_data/time_dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index d989452..20015a3 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -232,8 +232,6 @@ def change_dataset_features_labels(dataset, features_label_map):
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From d57d7ed950f7b219173edb63b40d74b7d2ecff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:33 +0000
Subject: [PATCH 11/72] fix: summing data set features without weights defaults
 to unit weights

---
 src/hookeai/time_series_data/time_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 20015a3..9037589 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -392,7 +392,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if (features_weights is not None
+                and feature_label in features_weights.keys()):
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From 47535277b92724e01bf556146e99af1c1a9fe1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 12/72] fix: k-fold cross-validation reads the model
 normalization after the model exists and always sets its start time

---
 .../rnn_base_model/train/cross_validation.py           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..6da8abe 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -124,10 +124,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
         data_array[i, 0] stores the best training loss and data_array[i, 1]
         stores the average prediction loss per sample.
     """
+    start_time_sec = time.time()
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -153,10 +153,6 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_training_losses = []
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
-    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -195,6 +191,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
             early_stopping_kwargs=early_stopping_kwargs,
             device_type=device_type, seed=None, is_verbose=False)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Get model input and output features normalization
+        is_model_in_normalized = model.is_model_in_normalized
+        is_model_out_normalized = model.is_model_out_normalized
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with recurrent neural network model
         _, avg_valid_loss_sample = predict(
             validation_dataset, model.model_directory,
-- 
2.43.0


From 7397d9c2ce908c543b7daa24f7a32615f26d751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:00 +0000
Subject: [PATCH 13/72] fix: prediction of a data set without ground truth no
 longer raises KeyError

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 0d8c637..daf5f35 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 09fc5fd..90c1b02 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index ea4812c..0bc6b55 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From 146f179675c069b73b26063dae28106f0f0ae31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:48 +0000
Subject: [PATCH 14/72] fix: min-max scaling of a constant feature no longer
 yields NaN

---
 src/hookeai/utilities/data_scalers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/data_scalers.py b/src/hookeai/utilities/data_scalers.py
index df5cfba..0af6de0 100644
--- a/src/hookeai/utilities/data_scalers.py
+++ b/src/hookeai/utilities/data_scalers.py
@@ -243,11 +243,15 @@ class TorchMinMaxScaler:
         # Get normalization bounds
         norm_minimum = self._norm_minimum
         norm_maximum = self._norm_maximum
+        # Get features range (handle features with null range)
+        data_range = maximum - minimum
+        data_range = torch.where(data_range != 0, data_range,
+                                 torch.ones_like(data_range))
         # Normalization features tensor
         transformed_tensor = \
             norm_minimum*torch.ones_like(tensor, device=input_device) \
             + torch.div((norm_maximum - norm_minimum)*torch.ones_like(
-                tensor, device=input_device), maximum - minimum)*(
+                tensor, device=input_device), data_range)*(
                     tensor - minimum)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Revert concatenation of sequential data
-- 
2.43.0


From 8f9e1752a7f6fd6fda4bcedce3fe3daab031e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:57 +0000
Subject: [PATCH 15/72] fix: setting fitted data scalers of a model no longer
 raises

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From 385ee2436d284572315b874b445d3b12e6126a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:57 +0000
Subject: [PATCH 16/72] fix: structure material state sets the data scalers of
 recurrent networks with the existing procedure

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..85bd0e7 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -21,6 +21,8 @@ from simulators.fetorch.material.models.standard.von_mises_mixed import \
     VonMisesMixed
 from simulators.fetorch.material.models.standard.drucker_prager import \
     DruckerPrager
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
 from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 6b4343fe1ff32d52d3cfdc89b2d67e5403224152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:58 +0000
Subject: [PATCH 17/72] fix: new directory/file names skip names taken by an
 entry of the other kind

---
 src/hookeai/ioput/iostandard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 5bfac98..271dc8b 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -58,7 +58,7 @@ def make_directory(directory, is_overwrite=False):
             # integer
             new_directory = directory
             i = 1
-            while os.path.isdir(new_directory):
+            while os.path.exists(new_directory):
                 new_directory = directory + '_' + str(i)
                 i += 1
             # Set new directory
@@ -91,7 +91,7 @@ def new_file_path_with_int(file_path):
     i = 1
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Find non-existent file path
-    while os.path.isfile(new_file_path):
+    while os.path.exists(new_file_path):
         new_file_path = root + '_' + str(i) + ext
         i += 1
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 5243d5a95b35babbfcbf9fbf23a73667eeee193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:58 +0000
Subject: [PATCH 18/72] fix: searching a file by regular expression does not
 return directories

---
 src/hookeai/ioput/iostandard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 271dc8b..fbf6866 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -196,7 +196,8 @@ def find_unique_file_with_regex(directory, regex):
         raise RuntimeError('Invalid regular expression.')    
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get files in directory
-    directory_list = os.listdir(directory)
+    directory_list = [x for x in os.listdir(directory)
+                      if os.path.isfile(os.path.join(directory, x))]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize file found flag
     is_file_found = False
-- 
2.43.0


From ad9ac7297c8cbbb70685452769f7f69ac56e2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 19/72] fix: material parameters with nested dictionaries are
 converted to tensors

---
 src/hookeai/utilities/type_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..b7b0ebf 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,7 +69,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
-- 
2.43.0


From 45cfb9a27f8664292fcef482b49d5b2de8914635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 20/72] fix: converting a copy of a dictionary to tensors keeps
 the other entries

---
 src/hookeai/utilities/type_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index b7b0ebf..10377f3 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -74,6 +74,8 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 858e22400ee2c2375b5801ba40a9bcdd8fd1e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:15 +0000
Subject: [PATCH 21/72] fix: Nadai-Ludwik hardening law adds the reference
 plastic strain once

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From 2210b87c8d66355796639b4860fa623207266ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 22/72] fix: piecewise linear hardening slope at the first
 hardening point is the first bracket slope

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 21bd989..798cf90 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -274,7 +274,7 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
         hard_slope = (y1 - y0)/(x1 - x0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce null hardening slope when extrapolating
-        lower_mask = torch.relu(acc_p_strain - a[0]).sign()
+        lower_mask = torch.ge(acc_p_strain, a[0]).to(hard_slope.dtype)
         upper_mask = torch.relu(a[-1] - acc_p_strain).sign()
         mask = lower_mask*upper_mask
         # Enforce extrapolation masking
-- 
2.43.0


From 981624e0b7a971bef4ac8b7c1aadf656daf66e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 23/72] fix: mixed hardening back-stress update is consistent
 with the yield residual

---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..31b77e7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                *flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..37ffb92 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+            *flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From bab3dd168a7e75b08ed567ea20954f2fdd166326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:40 +0000
Subject: [PATCH 24/72] fix: deviatoric stress invariants of hydrostatic stress
 states are not negative

---
 .../simulators/fetorch/material/models/standard/lou.py     | 7 +++++--
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 4127a6e..0b76e10 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -842,12 +842,15 @@ class LouZhangYoon(ConstitutiveModel):
         # Compute third (principal) invariant of stress tensor.
         i3 = torch.det(stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Compute deviatoric stress tensor
+        dev_stress = stress - (1/3)*i1*torch.eye(
+            3, dtype=stress.dtype, device=stress.device)
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.sum(dev_stress*dev_stress)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = torch.det(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d7f3dcd..d665f4a 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -631,12 +631,15 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Compute third (principal) invariant of stress tensor.
         i3 = torch.det(stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Compute deviatoric stress tensor
+        dev_stress = stress - (1/3)*i1*torch.eye(
+            3, dtype=stress.dtype, device=stress.device)
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.sum(dev_stress*dev_stress)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = torch.det(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
-- 
2.43.0


From 912380d7335250463ff771d4a7ef9f5f192b2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 25/72] fix: Lou-Zhang-Yoon third invariant derivatives exist
 for singular deviatoric stresses

---
 .../fetorch/material/models/standard/lou.py   | 26 ++++++++-----------
 .../fetorch/material/models/vmap/lou.py       | 26 ++++++++-----------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 0b76e10..ce7fbf5 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -30,7 +30,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -900,28 +900,24 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute square of deviatoric stress tensor
+        dev_stress_sq = torch.matmul(dev_stress, dev_stress)
+        # Compute derivative of square of deviatoric stress tensor w.r.t itself
+        ddssq_dds = 0.5*(torch.einsum('ik,lj->ijkl', soid, dev_stress)
+                         + torch.einsum('il,kj->ijkl', soid, dev_stress)
+                         + torch.einsum('ik,lj->ijkl', dev_stress, soid)
+                         + torch.einsum('il,kj->ijkl', dev_stress, soid))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = self.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym, dev_stress_sq)
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d665f4a..b150020 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -51,7 +51,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -693,28 +693,24 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute square of deviatoric stress tensor
+        dev_stress_sq = torch.matmul(dev_stress, dev_stress)
+        # Compute derivative of square of deviatoric stress tensor w.r.t itself
+        ddssq_dds = 0.5*(torch.einsum('ik,lj->ijkl', soid, dev_stress)
+                         + torch.einsum('il,kj->ijkl', soid, dev_stress)
+                         + torch.einsum('ik,lj->ijkl', dev_stress, soid)
+                         + torch.einsum('il,kj->ijkl', dev_stress, soid))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = cls.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym, dev_stress_sq)
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
-- 
2.43.0


From f0b524b3e7c499a0948713dd9a8d9af27663a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:41 +0000
Subject: [PATCH 26/72] fix: Lou-Zhang-Yoon apex return is only used beyond the
 apex pressure

---
 src/hookeai/simulators/fetorch/material/models/standard/lou.py | 2 +-
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index ce7fbf5..d856dc5 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -347,7 +347,7 @@ class LouZhangYoon(ConstitutiveModel):
         # Set state update maximum number of iterations
         su_max_n_iterations = 20
         # Set apex return-mapping switch tolerance
-        apex_switch_tol = 0.05
+        apex_switch_tol = 0.0
         # Set minimum threshold to handle values close or equal to zero
         small = 1e-8
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index b150020..cccf97e 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -386,7 +386,7 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Set state update maximum number of iterations
         su_max_n_iterations = 10
         # Set apex return-mapping switch tolerance
-        apex_switch_tol = 0.05
+        apex_switch_tol = 0.0
         # Set minimum threshold to handle values close or equal to zero
         small = 1e-8
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 472cd8efe52f69ff0e6c45c7dbbef11f4040526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 27/72] fix: piecewise linear hardening law returns values with
 the shape of the plastic strain

---
 .../simulators/fetorch/material/models/standard/hardening.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 798cf90..69f185a 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -237,6 +237,9 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
             acc_p_strain < a[0], 0.0, torch.where(
                 acc_p_strain >= a[-1], 0.0,
                 PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b)))
+        # Enforce shape of accumulated plastic strain
+        yield_stress = yield_stress.reshape(acc_p_strain.shape)
+        hard_slope = hard_slope.reshape(acc_p_strain.shape)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return yield_stress, hard_slope
     # -------------------------------------------------------------------------
-- 
2.43.0


From 929acb589ba432ceb19e052e25d33dab105c3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:51 +0000
Subject: [PATCH 28/72] fix: vectorized mixed hardening tangent modulus
 includes the kinematic hardening slope

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index 37ffb92..37e69f2 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 9af6265b61c19ca22b42f52568473de3dbb08ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 29/72] fix: Drucker-Prager cone tangent modulus uses the norm
 of the deviatoric trial strain

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 80708b390254298047cb3cd5a996f744f01f3d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:31 +0000
Subject: [PATCH 30/72] fix: converged element states do not follow later trial
 states after a commit without copy

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 85bd0e7..a99a113 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -531,7 +531,7 @@ class StructureMaterialState(torch.nn.Module):
         if is_copy:
             self._elements_state_old = copy.deepcopy(self._elements_state)
         else:
-            self._elements_state_old = self._elements_state
+            self._elements_state_old = dict(self._elements_state)
     # -------------------------------------------------------------------------
     def get_element_model_recurrency(self, element_id):
         """Get element constitutive model recurrent structure.
-- 
2.43.0


From 6dc2547fb332cdd5abbdf9ef57887eb46b7128d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 31/72] fix: force normalization offset does not enter the
 equilibrium of constrained degrees of freedom

---
 .../model/material_discovery.py               | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..a57818b 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1483,9 +1483,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (remove normalization offset, already
+            # balanced between internal and external forces)
+            reaction_forces_mesh = (
+                data_scaler_transform(
+                    self, reaction_forces_mesh, features_type='forces',
+                    mode='normalize')
+                - data_scaler_transform(
+                    self, torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize'))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2722,9 +2728,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (remove normalization offset, already
+            # balanced between internal and external forces)
+            reaction_forces_mesh = (
+                data_scaler_transform(
+                    self, reaction_forces_mesh, features_type='forces',
+                    mode='normalize')
+                - data_scaler_transform(
+                    self, torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize'))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From 2ec1eda265559981e533510da92b0ab7448cf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 32/72] fix: force equilibrium loss components history applies
 the force normalization

---
 .../model/material_discovery.py               | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index a57818b..ce268f6 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2872,21 +2872,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2903,6 +2888,26 @@ class MaterialModelFinder(torch.nn.Module):
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize external forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize reaction forces (remove normalization offset,
+                # already balanced between internal and external forces)
+                reaction_forces_mesh = (
+                    data_scaler_transform(
+                        self, reaction_forces_mesh, features_type='forces',
+                        mode='normalize')
+                    - data_scaler_transform(
+                        self, torch.zeros_like(reaction_forces_mesh),
+                        features_type='forces', mode='normalize'))
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
                 # Force equilibrium strictly based on pointwise internal,
-- 
2.43.0


From 0adf7135589a861b99317bacc6b08d3ce0d7055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 33/72] fix: Dirichlet sets loss with all degrees of freedom
 constrained keeps the first set

---
 .../model/material_discovery.py                | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index ce268f6..758b619 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2754,8 +2754,10 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
             dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-            # Get unique set labels
-            unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+            # Get unique set labels (label 0 of free degrees of freedom is always
+            # the first, even if all degrees of freedom are constrained)
+            unique_labels = torch.unique(torch.cat(
+                (dirichlet_bc_mesh_flat.new_zeros(1), dirichlet_bc_mesh_flat)))
             # Set contiguous set labels
             dense_indices = \
                 torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -2929,8 +2931,10 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
                 dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-                # Get unique set labels
-                unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+                # Get unique set labels (label 0 of free degrees of freedom is always
+                # the first, even if all degrees of freedom are constrained)
+                unique_labels = torch.unique(torch.cat(
+                    (dirichlet_bc_mesh_flat.new_zeros(1), dirichlet_bc_mesh_flat)))
                 # Set contiguous set labels
                 dense_indices = \
                     torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -3251,8 +3255,10 @@ class MaterialModelFinder(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Flatten mesh sets
         dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-        # Get unique set labels
-        unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+        # Get unique set labels (label 0 of free degrees of freedom is always
+        # the first, even if all degrees of freedom are constrained)
+        unique_labels = torch.unique(torch.cat(
+            (dirichlet_bc_mesh_flat.new_zeros(1), dirichlet_bc_mesh_flat)))
         # Set contiguous set labels
         dense_indices = \
             torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
-- 
2.43.0


From 16fd1234a4aa5ac15af2fdabf4d15d72592ad6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 34/72] fix: sequential evaluation modes honour the Dirichlet
 sets force equilibrium loss

---
 .../material_model_finder/model/material_discovery.py      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 758b619..7585ba2 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1472,6 +1472,13 @@ class MaterialModelFinder(torch.nn.Module):
         force_equilibrium_loss : float
             Force equilibrium loss.
         """
+        # Compute force equilibrium loss based on Dirichlet boundary sets
+        if self._force_equilibrium_loss_type == 'dirichlet_sets':
+            return self.vforce_equilibrium_loss(
+                internal_forces_mesh, external_forces_mesh,
+                reaction_forces_mesh,
+                self._specimen_data.dirichlet_bc_mesh_hist[:, :, 0])
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss
         force_equilibrium_loss = 0
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From b37f1bb7040b1e45bf25644ef165fdead3a7ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 35/72] fix: vectorized evaluation rejects elements with
 different material models of the same type

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 7585ba2..f1a5825 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1727,7 +1727,7 @@ class MaterialModelFinder(torch.nn.Module):
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
         # Get element constitutive material model
-        if specimen_material_state.get_n_element_material_type() > 1:
+        if len({id(x) for x in elements_material.values()}) > 1:
             raise RuntimeError('Vectorized forward propagation requires that '
                                'all the elements share the same material.')  
         else:
-- 
2.43.0


From d0e5fc0b7287cec763a9632b6d060f61627f4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 36/72] fix: element-sequential evaluation normalizes the
 features of normalized recurrent models

---
 .../model/material_discovery.py                    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index f1a5825..ed0d915 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,10 +1411,22 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        if self.check_model_in_normalized(constitutive_model):
+            model_features_in = data_scaler_transform(
+                constitutive_model, features_in, 'features_in',
+                mode='normalize')
+        else:
+            model_features_in = features_in
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            features_out = data_scaler_transform(
+                constitutive_model, features_out, 'features_out',
+                mode='denormalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
-- 
2.43.0


From 4246a3f83ce8efb931b1b688ccd94aab0cb91160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 37/72] fix: vectorized evaluation stores physical strains in
 the local response paths

---
 .../material_model_finder/model/material_discovery.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index ed0d915..f4924f7 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2528,11 +2528,13 @@ class MaterialModelFinder(torch.nn.Module):
         # Normalize input features tensor
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
+        else:
+            model_features_in = features_in
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 9d0305e73791d5e970a96a70b267ece36b40c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:01 +0000
Subject: [PATCH 38/72] fix: normalized values of parameters that are not
 stored normalized can be read

---
 .../rc_base_model/model/recurrent_model.py                   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..19c2020 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -517,10 +517,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                 self._model_parameters_bounds[param] = param_dict['bounds']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set normalization bounds
+            self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
+            # Normalize initial value
             if self.is_normalized_parameters:
-                # Set lower and upper bounds
-                self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
-                # Normalize initial value
                 init_val = self.transform_parameter(param, init_val,
                                                     mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From e9c012c19a7040510063c55273a46c1d73659f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:19 +0000
Subject: [PATCH 39/72] fix: random strain paths that exceed both bounds are
 scaled within both

---
 .../strain_paths/random_path.py               | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..e289d5d 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,16 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Initialize linear scale factor
+                    scale_factor = 1.0
+                    # Enforce lower bound
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
+                        scale_factor = \
+                            min(scale_factor, np.abs(lbound/min_strain))
+                    # Enforce upper bound
                     if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                        scale_factor = \
+                            min(scale_factor, np.abs(ubound/max_strain))
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From ff4f5eeaacd10ba5fc6c74a268238762b4445108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:19 +0000
Subject: [PATCH 40/72] fix: proportional strain path with prescribed increment
 norm keeps its loading direction

---
 .../strain_paths/proportional_path.py             | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/proportional_path.py b/src/hookeai/data_generation/strain_paths/proportional_path.py
index ef542a4..d573f83 100644
--- a/src/hookeai/data_generation/strain_paths/proportional_path.py
+++ b/src/hookeai/data_generation/strain_paths/proportional_path.py
@@ -168,7 +168,7 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
             strain_path_trial[:, j] = strain_comp_hist
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize strain path
-        strain_path = strain_path_trial[:, :]
+        strain_path = strain_path_trial.copy()
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over time
         for i in range(1, n_time_forward):
@@ -178,16 +178,21 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                 if inc_strain_norm <= 0:
                     raise RuntimeError('Prescribed incremental strain norm '
                                        'must be positive value.')
-                # Get strain tensors
-                strain = StrainPathGenerator.build_strain_tensor(
-                    self._n_dim, strain_path[i, :], strain_comps_order,
+                # Get (proportional) trial strain tensors
+                strain_trial = StrainPathGenerator.build_strain_tensor(
+                    self._n_dim, strain_path_trial[i, :], strain_comps_order,
                     is_symmetric=self._strain_formulation == 'infinitesimal')
+                strain_trial_old = StrainPathGenerator.build_strain_tensor(
+                    self._n_dim, strain_path_trial[i - 1, :],
+                    strain_comps_order,
+                    is_symmetric=self._strain_formulation == 'infinitesimal')
+                # Get previous strain tensor
                 strain_old = StrainPathGenerator.build_strain_tensor(
                     self._n_dim, strain_path[i - 1, :], strain_comps_order,
                     is_symmetric=self._strain_formulation == 'infinitesimal')
                 # Compute strain increment
                 if self._strain_formulation == 'infinitesimal':
-                    inc_strain = strain - strain_old
+                    inc_strain = strain_trial - strain_trial_old
                 else:
                     raise RuntimeError('Not implemented.')
                 # Compute strain increment unit vector
-- 
2.43.0


From 8008ffb9793e5b82ecb247f20b9026c993c37023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:19 +0000
Subject: [PATCH 41/72] fix: deformed patch can be generated without
 superimposed rigid body motions

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From eb263e87fc3ca95089c6630acb9ed690b4e97890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:04 +0000
Subject: [PATCH 42/72] fix: displacements of face nodes of 3D patches
 interpolate between opposite edges

---
 src/hookeai/data_generation/spdg/patch_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..95aa290 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,15 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From 70ec0a80a226e0c0f53f39b621486c5e8e4f8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:05 +0000
Subject: [PATCH 43/72] fix: symmetric tensors stored without Kelvin factors
 are recovered with all their components

---
 .../simulators/fetorch/math/matrixops.py      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..2ba7cc2 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -378,7 +378,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
         raise RuntimeError('Duplicated component in strain/stress components '
                            'order.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Set Kelvin notation flag
+    # Set symmetry and Kelvin notation flags
+    is_symmetric = len(comp_order) != n_dim**2
     if len(comp_order) == n_dim**2:
         is_kelvin_notation = False
     elif len(comp_order) == sum(range(n_dim + 1)):
@@ -407,8 +408,9 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = mf_indexes[i]
             so_idx = tuple(so_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not so_idx[0] == so_idx[1]:
-                factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
+                if is_kelvin_notation:
+                    factor = math.sqrt(2)
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -435,12 +437,12 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = tuple(mf_indexes[i])
             fo_idx = tuple(fo_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not (fo_idx[0] == fo_idx[1]
-                                           and fo_idx[2] == fo_idx[3]):
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+            if is_symmetric and not (fo_idx[0] == fo_idx[1]
+                                     and fo_idx[2] == fo_idx[3]):
+                if is_kelvin_notation and fo_idx[0] != fo_idx[1]:
+                    factor = factor*math.sqrt(2)
+                if is_kelvin_notation and fo_idx[2] != fo_idx[3]:
+                    factor = factor*math.sqrt(2)
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From c0b1c00a5b82a4f8900795d147c1ca12d694c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:38 +0000
Subject: [PATCH 44/72] fix: hybrid models scale the features of hybridized
 models with their data scalers

HybridModel.forward called a data_scaler_transform() method that the recurrent
models do not have, so a normalized hybridized model could not be evaluated.
---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..c1978ef 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, tensor=features_out,
+                        features_type='features_in', mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, tensor=features_out,
+                        features_type='features_out', mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From 25198b388c762867210b57886409f42f6d3c4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:38 +0000
Subject: [PATCH 45/72] fix: volumetric/deviatoric composition does not modify
 its input in place

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..0f075b8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From d4cb2130a6d194d66531e528a2ed430f94862c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:47 +0000
Subject: [PATCH 46/72] fix: strain state features can be output by vectorized
 recurrent constitutive models

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 19c2020..86e1ea3 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1518,7 +1518,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 543d99d549586af1457abf6854f01b4b7cd023c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:01 +0000
Subject: [PATCH 47/72] fix: volumetric stress feature is the mean stress, so
 that the deviatoric stress feature is traceless

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..cc0eccf 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = (1.0/3.0)*torch.trace(stress)
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = (1.0/3.0)*torch.trace(stress)
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From d7073de30f37ebc866a5792b568f2c22f20107e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:11 +0000
Subject: [PATCH 48/72] fix: parameter history of the material model finder
 holds the parameters of each epoch

The history of steps starts empty, so skipping its first entry averaged an
empty list: the recorded history was NaN and the parameters convergence
stopping criterion never triggered.
---
 src/hookeai/material_model_finder/train/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 78b1609..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -316,7 +316,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
             # Loop over parameters
             for key in model_init_parameters.keys():
                 model_parameters_history_epochs[key].append(np.mean(
-                    model_parameters_history_steps[key][epoch_init_step + 1:]))
+                    model_parameters_history_steps[key][epoch_init_step:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
-- 
2.43.0


From e6d8155463d8ad6045dbb6be89eef583f6dd927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:51 +0000
Subject: [PATCH 49/72] fix: specimen history paths hold only the time step
 files of the specimen

The pattern was not anchored at the end of the file name and the specimen
name was taken as a regular expression, so that backup files were read as
further time steps.
---
 .../global_model_update/material_finder/gen_specimen_data.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..e18cb70 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -370,8 +370,8 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
-                      filename))
+            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+'
+                      + r'\.csv$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
         if is_time_step_file:
-- 
2.43.0


From 6445c586d42fd015c35629b20e8b180955e6343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:51 +0000
Subject: [PATCH 50/72] fix: specimen data set can be generated without saving
 all files

The paths of files which are not saved were undefined when returned.
---
 .../global_model_update/material_finder/gen_specimen_data.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index e18cb70..2e4b12a 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -134,6 +134,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize specimen data set files paths
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From 169e57cc519c81929fa412c01ab3a8d47c665be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 51/72] fix: gradient of the mean relative error with zero
 targets is not NaN

The discarded division by a zero target still contributed 0*inf to the
gradient of the loss.
---
 src/hookeai/utilities/loss_functions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..fbaa76d 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,10 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
-            # Compute relative error
-            relative_error = absolute_error/target.abs()
             # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            # (avoid the division by zero, which would spoil the gradient)
+            relative_error = absolute_error/torch.where(
+                target.abs() < small, torch.ones_like(target), target.abs())
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From e0997cd5f10b4200ead7d33f85861701667be629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 52/72] fix: mean prediction metrics file with nan or inf
 values can be read

A feature with a null ground truth has no finite NRMSE; the written file was
not matched by the reading pattern (AttributeError).
---
 src/hookeai/utilities/output_prediction_metrics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..2359da9 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -375,10 +375,7 @@ def read_mean_metrics_results_file(file_path, n_sample=None):
             # Collect metric data (assumes values are formatted in scientific
             # notation)
             prefix_pattern = r'^\s*>\s*(\w+):\s*'
-            number_list_pattern = (r'\[\s*'
-                                   r'((?:-?\d*\.?\d*(?:e[-+]?\d+)'
-                                   r'?(?:\s*,\s*-?\d*\.?\d*(?:e[-+]?\d+)?)*))'
-                                   r'\s*\]')
+            number_list_pattern = r'\[([^\]]*)\]'
             metric_data = \
                 re.search(prefix_pattern + number_list_pattern, line)
             # Extract metric name and values
-- 
2.43.0


From 58896e03b2052fde8986d92f27dfc513fb25475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 53/72] fix: precision conversion which is not in-place leaves
 nested dictionaries alone

Nested dictionaries of the given dictionary were converted in-place, e.g.,
the hardening parameters of a material model in a state update.
---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 10377f3..2d68374 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -144,7 +144,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -220,7 +221,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 863065e0168ce8f524d149947f1a75e518f5a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 54/72] fix: noisy response data set script imports the plots
 from its package

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..dc53b11 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,7 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 401a1c35362f36ca3bb6fd3342482be21d168338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 55/72] fix: heteroscedastic noise of a response data set is
 weighted by the norm of each path

---
 .../synthetic_data/gen_noisy_response_dataset.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index dc53b11..37f9ea1 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -402,16 +402,18 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order,
+                            is_symmetric=(self._strain_formulation
+                                          == 'infinitesimal'))
                     # Set heteroscedastic normalization
-                    if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                    path_normalizer = heteroscedastic_normalizer
+                    if path_normalizer is None:
+                        path_normalizer = np.max(noiseless_strain_norm_path)
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 15145befd66e7f28ec31fa3f433fb2909e1ba4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 56/72] fix: unavailable state variable is ignored over the
 whole noisy response path

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 37f9ea1..e265767 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -608,7 +608,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From e213076cab817aa05c4af25918164e556b557683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 57/72] fix: response data set from csv files takes the data
 set base name it documents

---
 .../user_scripts/synthetic_data/gen_response_dataset.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..dd715e9 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -577,7 +577,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
@@ -590,8 +591,6 @@ class MaterialResponseDatasetGenerator():
         dataset_directory : str, default=None
             Directory where the time series data set is stored (all data set
             samples files). Required if is_in_memory_dataset=False.
-        dataset_basename : str, default=None
-            Data set file base name. Required if is_in_memory_dataset=False.
         save_dir : str, default=None
             Directory where figure is saved. If None, then figure is saved in
             current working directory.
@@ -599,6 +598,8 @@ class MaterialResponseDatasetGenerator():
             Save figure.
         is_verbose : bool, default=False
             If True, enable verbose output.
+        dataset_basename : str, default=None
+            Data set file base name. Required if is_in_memory_dataset=False.
             
         Returns
         -------
-- 
2.43.0


From c3badbb5b05a5b51ebfa4db774a4d8704d96fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 58/72] fix: denoising kernels have the precision of the
 denoised tensor

---
 src/hookeai/utilities/data_denoisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..1b194a5 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,8 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(coeffs, dtype=tensor.dtype, device=tensor.device
+                              ).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From ab99c11442f039b7633a605e2ddacefd2eaa23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 59/72] fix: denoised strain path starts at the noiseless
 strain also when it is scaled

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index e265767..19eff80 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -453,7 +453,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From 8e966f2f5f9f082367dd526aedfc0c6ed77396bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:28 +0000
Subject: [PATCH 60/72] fix: gradient of the vectorized Drucker-Prager model at
 null deviatoric trial stress

The square root of a null second invariant has an infinite derivative, so a
point without deviatoric strain (e.g., undeformed) made every gradient of the
loss NaN. Compute the square root from the norm, as in the other models.
---
 .../fetorch/material/models/vmap/drucker_prager.py       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
index 51bc516..47e5e3f 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
@@ -696,6 +696,11 @@ class DruckerPragerVMAP(ConstitutiveModel):
         is_plast = torch.tensor([True], device=device)
         # Set incremental plastic multiplier initial iterative guess
         inc_p_mult = torch.tensor(0.0, device=device)
+        # Compute square root of second invariant of deviatoric trial stress
+        # (from the norm, to avoid undefined gradients at null deviatoric trial
+        # stress)
+        sqrt_j2_dev_trial_stress = \
+            torch.norm(dev_trial_stress_mf)/math.sqrt(2.0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Newton-Raphson iterative loop
         for nr_iter in range(su_max_n_iterations + 1):
@@ -703,7 +708,7 @@ class DruckerPragerVMAP(ConstitutiveModel):
             cohesion, H = hardening_law(hardening_parameters,
                                         acc_p_strain_old + xi*inc_p_mult)
             # Compute return-mapping residual (cone surface)
-            residual = (torch.sqrt(j2_dev_trial_stress) - G*inc_p_mult
+            residual = (sqrt_j2_dev_trial_stress - G*inc_p_mult
                         + etay*(trial_pressure - K*etaf*inc_p_mult)
                         - xi*cohesion)
             # Compute residual convergence norm
@@ -730,7 +735,7 @@ class DruckerPragerVMAP(ConstitutiveModel):
         # Set return-mapping to apex flag
         is_apex_return = torch.where(
             is_converged,
-            (torch.sqrt(j2_dev_trial_stress) - G*inc_p_mult) < 0,
+            (sqrt_j2_dev_trial_stress - G*inc_p_mult) < 0,
             is_converged)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set incremental plastic multiplier to NaN if state update fails
-- 
2.43.0


From 448da8096febb3647f54b7fa042dd2f36a51e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 61/72] fix: gradient of the vectorized Lou-Zhang-Yoon model at
 null deviatoric strain

The discarded surface return-mapping of an undeformed (or apex) point has
undefined derivatives, which made every gradient of the loss NaN. Evaluate it
in simple shear when it is avoided.
---
 .../simulators/fetorch/material/models/vmap/lou.py        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index cccf97e..a8b82d4 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -1037,6 +1037,14 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Get device from elastic trial strain
         device = e_trial_strain_mf.device
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # When return-mapping is avoided, replace elastic trial strain by simple
+        # shear (output is discarded) to avoid undefined gradients at null
+        # deviatoric strain
+        shear_strain = torch.zeros_like(e_trial_strain)
+        shear_strain[0, 1] = shear_strain[1, 0] = 1e-3
+        e_trial_strain = torch.where(is_avoid_return_mapping, shear_strain,
+                                     e_trial_strain)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Store elastic consistent tangent modulus in matricial form
         e_consistent_tangent_mf = vget_tensor_mf(e_consistent_tangent,
                                                  n_dim, comp_order_sym,
-- 
2.43.0


From 5a5285894fa72aa1b8b139cd150408169cd74f41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 62/72] fix: testing data set of a pruning step does not
 overwrite the validation data set

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..47b269f 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From 0f65117f94a5593b623e5bed6898b45418359a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 63/72] fix: minimum size of the pruning testing data set is
 that of the testing data set

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 47b269f..e464fde 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -710,7 +710,7 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
         step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From b79b31175781a8558cc6312af7bcfe15a5e8270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:44 +0000
Subject: [PATCH 64/72] fix: import of the prediction tools by the recurrent
 constitutive model prediction

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From 04f07f6ec7a80c5f10c37e06bfa297c75b6ddb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 65/72] fix: Links input data file is only opened once its
 content is known

---
 src/hookeai/simulators/links/links.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 57e6790..222f7ae 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -512,9 +512,6 @@ class LinksSimulator:
             If True, then save data file with Links input data file loading
             incrementation data.
         """
-        # Open Links input data file
-        links_file = open(links_file_path, 'w')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Short name for input parameters
         ip = input_params
         # Get number of spatial dimensions
@@ -624,6 +621,8 @@ class LinksSimulator:
                  + ''.join(['{:^1d}'.format(i) for i in code]) \
                  + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
+        # Open Links input data file
+        links_file = open(links_file_path, 'w')
         # Write Links input data file
         links_file.writelines(write_lines)
         # Close Links input data file
-- 
2.43.0


From 84b9cc44ae5609c3ca60f55195ddf318bbff1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 66/72] fix: reaction node group of specimens with negative
 prescribed displacement

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..23910bf 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From 5e1235f872f146412850c8a2a88e5b1c8fc05869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 67/72] fix: separate prescribed displacements in Dirichlet
 boundary conditions file

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 23910bf..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From eb3cae675d3770d24672dd9b4b18460d5fe638d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:19 +0000
Subject: [PATCH 68/72] fix: check target directory of condition data

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 784ced3b724fde271ca8482cc6a9b7fac467acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:19 +0000
Subject: [PATCH 69/72] fix: local paths of material patches are collected with
 their boundary conditions

---
 .../material_finder/gen_specimen_local_paths.py  |  9 ++++++---
 .../synthetic_data/build_local_paths_dataset.py  | 16 ++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..8ec2188 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -40,7 +40,8 @@ __status__ = 'Stable'
 def gen_specimen_local_dataset(specimen_data_path,
                                specimen_material_state_path,
                                model_directory, is_plot_dataset=False,
-                               device_type='cpu', is_verbose=False):
+                               device_type='cpu', is_verbose=False,
+                               force_equilibrium_loss_type='dirichlet_sets'):
     """Generate specimen local strain-stress paths data set.
     
     Parameters
@@ -59,6 +60,10 @@ def gen_specimen_local_dataset(specimen_data_path,
         Type of device on which torch.Tensor is allocated.
     is_verbose : bool, default=False
         If True, enable verbose output.
+    force_equilibrium_loss_type : {'pointwise', 'dirichlet_sets'}, \
+                                  default='dirichlet_sets'
+        Force equilibrium loss type, in accordance with the Dirichlet boundary
+        constraints labels of the specimen numerical data.
         
     Returns
     -------
@@ -78,8 +83,6 @@ def gen_specimen_local_dataset(specimen_data_path,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set material model finder name
     model_finder_name = 'material_model_finder'
-    # Set force equilibrium loss type
-    force_equilibrium_loss_type = 'dirichlet_sets'
     # Set force normalization
     is_force_normalization = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..1339c9b 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files (including boundary conditions)
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
@@ -460,7 +459,8 @@ def gen_patch_local_dataset(model_finder_dir, patch_data_path,
     # Generate material patch local strain-stress paths data set
     local_dataset, _ = gen_specimen_local_dataset(
         patch_data_path, patch_material_state_path, model_directory,
-        device_type=device_type, is_verbose=is_verbose)
+        device_type=device_type, is_verbose=is_verbose,
+        force_equilibrium_loss_type='pointwise')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return local_dataset
 # =============================================================================
-- 
2.43.0


From 848c4e7e01c14a17e451f833104fe3756a671a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 70/72] fix: prediction figures of data sets with fewer than
 five samples

---
 .../local_model_update/hybrid_material_model/predict.py   | 8 ++++++--
 .../local_model_update/rc_material_model/predict.py       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
index 669aa00..410b9b5 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
@@ -211,8 +211,12 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -255,7 +259,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # Set plot reference prediction data
         is_reference_data = False
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 5b83ff4..c8e2762 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -165,8 +165,12 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -210,7 +214,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
         # Build times series predictions data arrays
         prediction_data_dicts = build_time_series_predictions_data(
-- 
2.43.0


From 2736571523748fb4c77fea1a66da09aaabb85158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 71/72] fix: set data scalers of hybridized models

---
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
-- 
2.43.0


From fa5832ae219da3e926341352b04a6be32aacc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 72/72] fix: enforce material constraints of hybridized models
 in training

---
 .../model_architectures/hybrid_base_model/train/training.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index c74a0a1..0d15f84 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -395,6 +395,8 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
                             hyb_model.get_model_parameters_bounds()[param]
                     # Enforce bounds
                     value.data.clamp_(lower_bound, upper_bound)
+                # Enforce material constitutive model-dependent constraints
+                hyb_model.enforce_parameters_constraints()
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             if is_verbose:
                 total_time_sec = time.time() - start_time_sec
-- 
2.43.0

