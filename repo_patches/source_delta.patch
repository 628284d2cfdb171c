From a8ae8d6845fa46ddfd8f2dd9a7b817266ddc0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 01/49] fix: worker losing its first race for a trial no longer
 dies with UnboundLocalError

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 821c6b4013bd25b3d7d1c10d65078a8ca1e2ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 02/49] fix: clear the in-progress trial of the process when
 its evaluation is aborted by an error

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From 6c8c17b7567974b8ebf10407307b987143322a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 03/49] fix: never hand out a trial that another worker claimed
 after it was listed as pending

---
 neps/state/neps_state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..565ac3c 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,13 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker may have claimed the trial between listing it as pending
+        # and us reading its latest version, so the state has to be checked again on the
+        # version we hand out.
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 62838de019d19c25ac2434b2ff0db4636b30ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 04/49] fix: replace state files atomically so a killed worker
 cannot leave them truncated

---
 neps/state/filebased.py | 25 +++++++++++++++++--------
 neps/utils/files.py     | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..e9e1177 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import atomic_write, deserialize, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -246,16 +246,21 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
+            with atomic_write(previous_trial_path) as tmp_path:
+                tmp_path.write_text(trial.metadata.previous_trial_id)
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
             serialize(asdict(trial.report), report_path)
 
+        # NOTE: The state comes last such that a trial never appears to be finished
+        # without its report, should the process die in between.
+        with atomic_write(state_path) as tmp_path:
+            tmp_path.write_text(trial.state.value, encoding="utf-8")
+
 
 @dataclass
 class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
@@ -329,7 +334,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with atomic_write(py_rng_path) as tmp_path:
+            np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(tmp_path)
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -341,17 +347,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with atomic_write(np_rng_path) as tmp_path:
+            np_rng_state.tofile(tmp_path)
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with atomic_write(torch_rng_path) as tmp_path:
+                torch.save(snapshot.torch_rng, tmp_path)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with atomic_write(torch_cuda_rng_path) as tmp_path:
+                torch.save(snapshot.torch_cuda_rng, tmp_path)
 
 
 @dataclass
@@ -419,7 +428,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with atomic_write(errors_path) as tmp_path, tmp_path.open("w") as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..4845763 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,7 +3,9 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
 from typing import Any
@@ -11,6 +13,18 @@ from typing import Any
 import yaml
 
 
+@contextmanager
+def atomic_write(path: Path | str) -> Iterator[Path]:
+    """Yield a temporary path which replaces `path` once it was written completely.
+
+    If the process dies while writing, `path` still has its previous content.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(f".{path.name}.tmp")
+    yield tmp_path
+    os.replace(tmp_path, path)
+
+
 def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     """Format data to be serializable."""
     if hasattr(data, "serialize"):
@@ -44,10 +58,9 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
-    path = Path(path)
-    with path.open("w") as file_stream:
+    with atomic_write(path) as tmp_path, tmp_path.open("w") as file_stream:
         try:
-            return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
+            yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
             raise TypeError(
                 "Could not serialize to yaml! The object "
-- 
2.43.0


From 6ee33bc95ea4c2b62c9b15ec8fb3d20a726e3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 05/49] fix: ignore trials that are not completely written and
 create the version of a resource last

---
 neps/state/filebased.py | 7 +++++--
 neps/state/protocols.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index e9e1177..3c4f141 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -96,7 +96,10 @@ class TrialRepoInDirectory(TrialRepo[Path]):
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            # A trial without a version is still being created by some worker, or was
+            # left behind by one that died while doing so.
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -168,7 +171,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..962edb0 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,10 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The version marks the resource as existing, hence it must only appear once
+        # the data is completely written.
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From 1f77fa885a8e153a85520e3b02c2174a3b2f49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 06/49] fix: workers starting at the same time on a new
 directory no longer fail reading the optimizer info

---
 neps/state/filebased.py | 52 ++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 3c4f141..3a6b52c 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -583,9 +583,8 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
+        the one that is passed. If two processes try to create a NePSState at the
+        same time, both with different optimizer infos, then one will fail
         to create the NePSState. This is a limitation of the current design.
 
         In principal, we could allow multiple optimizers to be run and share
@@ -602,7 +601,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -618,35 +616,31 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: Another worker may be creating the very same directory right now (or died while
+    # doing so), hence existence of the directory does not imply that the info is there.
+    shared_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,  # type: ignore
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From d0a0e107eab26fe65e5fec694dffdc404ffeb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 07/49] fix: count pending and in-progress trials in the status
 summary

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..aa8f590 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.report is None and trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.report is None and trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From cefddd67584f2ff0635ecb78d49198d9a01f3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 08/49] fix: write the CSV summary from the latest trials, also
 if there are only failed or no evaluations

---
 neps/status/status.py | 95 ++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 68 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index aa8f590..666283b 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -223,7 +223,9 @@ def _get_dataframes_from_summary(
         if include_configs:
             config_data_prev.append(config_result_prev.config)
         if include_results:
-            result_data_prev.append(config_result_prev.result)
+            # A failed configuration has no results to show
+            result = config_result_prev.result
+            result_data_prev.append(result if result != "error" else {})
         if include_metadatas:
             metadata_data_prev.append(config_result_prev.metadata)
 
@@ -282,69 +284,25 @@ def _get_dataframes_from_summary(
 def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
-    locker: Locker,
     config_data_df: pd.DataFrame,
     run_data_df: pd.DataFrame,
 ) -> None:
-    """Save data as a CSV while acquiring a lock for data integrity.
-
-    This function saves data to CSV files while acquiring a lock to prevent concurrent
-    writes. If the lock is acquired, it writes the data to the CSV files and releases the
-    lock.
+    """Save data as a CSV. The caller has to hold the lock of the CSV files.
 
     Args:
         config_data_file_path: The path to the CSV file for configuration data.
         run_data_file_path: The path to the CSV file for additional run data.
-        locker: An object for acquiring and releasing a lock to ensure data integrity.
         config_data_df: The DataFrame containing configuration data.
         run_data_df: The DataFrame containing additional run data.
     """
-    with locker(poll=2):
-        try:
-            pending_configs = run_data_df.loc["num_pending_configs", "value"]
-            pending_configs_with_worker = run_data_df.loc[
-                "num_pending_configs_with_worker",
-                "value",
-            ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
-            if run_data_file_path.exists():
-                prev_run_data_df = pd.read_csv(run_data_file_path)
-                prev_run_data_df = prev_run_data_df.set_index("description")
-
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-        except Exception as e:
-            raise RuntimeError(f"Error during data saving: {e}") from e
+    try:
+        # There is no loss if no configuration was evaluated successfully yet
+        if "result.loss" in config_data_df.columns:
+            config_data_df = config_data_df.sort_values(by="result.loss", ascending=True)
+        config_data_df.to_csv(config_data_file_path, index=False, mode="w")
+        run_data_df.to_csv(run_data_file_path, index=True, mode="w")
+    except Exception as e:
+        raise RuntimeError(f"Error during data saving: {e}") from e
 
 
 def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
@@ -360,18 +318,19 @@ def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
     csv_config_data = Path(csv_config_data).absolute().resolve()
     csv_rundata = Path(csv_rundata).absolute().resolve()
 
-    df_config_data, df_run_data = _get_dataframes_from_summary(
-        root_directory,
-        include_metadatas=True,
-        include_results=True,
-        include_configs=True,
-    )
-
-    _save_data_to_csv(
-        csv_config_data,
-        csv_rundata,
-        csv_locker,
-        df_config_data,
-        df_run_data,
-    )
+    # NOTE: The trials are read while holding the lock, such that whoever writes last
+    # also has the most recent data.
+    with csv_locker(poll=0.1, timeout=120):
+        df_config_data, df_run_data = _get_dataframes_from_summary(
+            root_directory,
+            include_metadatas=True,
+            include_results=True,
+            include_configs=True,
+        )
+        _save_data_to_csv(
+            csv_config_data,
+            csv_rundata,
+            df_config_data,
+            df_run_data,
+        )
     return csv_config_data, csv_rundata
-- 
2.43.0


From f385355c2bef4b9a975d285c6ada94f42eef196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 09/49] fix: BaseOptimizer.get_cost returns the cost of a
 report instead of its loss

---
 neps/optimizers/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 898508c..0f36032 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -149,7 +149,7 @@ class BaseOptimizer:
         # use `Trial` and `Report`, they already take care of this and save having to do
         # this `_get_loss` at every call
         if isinstance(result, Report):
-            return result.loss if result.loss is not None else "error"
+            return result.cost if result.cost is not None else "error"
 
         return _get_cost(
             result,
-- 
2.43.0


From 775542fbdce278403b2301b66c0a95f40602bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 10/49] fix: get_initial_directory no longer answers from a
 cache filled by an earlier run in the same process

---
 neps/utils/common.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..a049f50 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -140,9 +140,6 @@ def load_lightning_checkpoint(
     return checkpoint_path, checkpoint
 
 
-_INTIAL_DIRECTORY_CACHE: dict[str, Path] = {}
-
-
 # TODO: We should have a better way to have a shared folder between trials.
 # Right now, the fidelity lineage is linear, however this will be a difficulty
 # when/if we have a tree structure.
@@ -164,9 +161,6 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
-
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
         trial = neps_state.get_trial_by_id(prev_trial_id)
@@ -175,10 +169,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
 
     # TODO: Hard coded assumption that we are operating in a filebased neps
     assert isinstance(initial_dir, str)
-    path = Path(initial_dir)
-
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
-    return path
+    return Path(initial_dir)
 
 
 def get_searcher_data(
-- 
2.43.0


From 016e2ded4679c07e4cabfec8fc491b0b794fd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 11/49] fix: storing a trial without a report removes the
 report of an earlier version of it

---
 neps/state/filebased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 3a6b52c..6f465a5 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -255,9 +255,11 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
             with atomic_write(previous_trial_path) as tmp_path:
                 tmp_path.write_text(trial.metadata.previous_trial_id)
 
+        report_path = directory / cls.REPORT_FILENAME
         if trial.report is not None:
-            report_path = directory / cls.REPORT_FILENAME
             serialize(asdict(trial.report), report_path)
+        else:
+            report_path.unlink(missing_ok=True)
 
         # NOTE: The state comes last such that a trial never appears to be finished
         # without its report, should the process die in between.
-- 
2.43.0


From 91c073c5a5332735b4210549f14beb94b8aae6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 12/49] fix: serialize zero-dimensional arrays and tensors

---
 neps/utils/files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 4845763..8090714 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -42,16 +42,18 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if not isinstance(data, str) and isinstance(data, Iterable):
-        return [serializable_format(val) for val in data]
-
-    if type(data).__module__ in ["numpy", "torch"]:
+    # NOTE: Before any iterables, arrays and tensors with a single value are iterables which
+    # can not be iterated.
+    if type(data).__module__ in ["numpy", "torch"] and hasattr(data, "tolist"):
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
             data = data.item()
 
         return serializable_format(data)
 
+    if not isinstance(data, str) and isinstance(data, Iterable):
+        return [serializable_format(val) for val in data]
+
     return data
 
 
-- 
2.43.0


From 2f1d07227596e7efc94585571c6a68cc6579397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 13/49] fix: grid search visits the grid in a fixed order and
 without duplicate grid points

---
 neps/optimizers/grid_search/optimizer.py | 8 ++++++--
 neps/search_spaces/search_space.py       | 3 +--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..01b4239 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,8 +36,12 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
-        configs = rng.sample(self.configs_list, len(self.configs_list))
+        # NOTE: The order has to be the same in every call, otherwise some configurations
+        # are evaluated repeatedly and others never.
+        configs = self.configs_list
+        if self.seed is not None:
+            rng = random.Random(self.seed)
+            configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
         config_id = str(_num_previous_configs)
diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..a5483de 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,7 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                param_ranges.append(np.unique(_grid).tolist())
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From 94bb7e972b77205f754c9bbb468eb175185366a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 14/49] fix: halving searchers rank failed configurations last
 instead of failing on them

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..9941a83 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error":
+                # a failed evaluation counts as finished and is ranked last
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From a588e7735ae7e27ef8f71d20a184a67bad5316c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 15/49] fix: asynchronous promotions also work with an early
 stopping rate above zero

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..9905ac3 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,7 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        for rung in sorted(self.rung_members_performance):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From a00f0bdbe811de0033690879c39488f7dc4c97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 16/49] fix: random search evaluates at the maximum fidelity
 when it ignores the fidelity

---
 neps/optimizers/random_search/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..516084d 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,8 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.fidelity is not None:
+            config.fidelity.set_value(config.fidelity.upper)
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From a9c48b74e385b0f2d928e4ce8172af57540f653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 17/49] fix: random interleaving of the halving searchers
 follows the stored random state

---
 neps/optimizers/multi_fidelity/successive_halving.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 9941a83..7f5f273 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -423,8 +423,6 @@ class SuccessiveHalvingBase(BaseOptimizer):
             config_id = f"{row.name}_{rung}"
         else:
             rung_id = self.min_rung
-            # using random instead of np.random to be consistent with NePS BO
-            rng = random.Random(None)  # TODO: Seeding
 
             if (
                 self.use_priors
@@ -438,7 +436,8 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 logger.info("Sampling the default configuration...")
                 config = self.pipeline_space.sample_default_configuration()
 
-            elif rng.random() < self.random_interleave_prob:
+            # using random instead of np.random to be consistent with NePS BO
+            elif random.random() < self.random_interleave_prob:
                 config = self.pipeline_space.sample(
                     patience=self.patience,
                     user_priors=False,  # sample uniformly random
-- 
2.43.0


From e4e5700b699debaac6d1e9b0e8e036162e0b7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 18/49] fix: grid search accepts the arguments neps.run passes
 to every searcher

---
 neps/optimizers/grid_search/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index 01b4239..72d212d 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import random
 from collections.abc import Mapping
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 from typing_extensions import override
 
 from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
@@ -19,6 +19,7 @@ class GridSearch(BaseOptimizer):
         pipeline_space: SearchSpace,
         grid_step_size: int = 10,
         seed: int | None = None,
+        **kwargs: Any,  # TODO: Remove
     ):
         super().__init__(pipeline_space=pipeline_space)
         grid = self.pipeline_space.get_search_space_grid(
-- 
2.43.0


From acc1de72eef2d426fee6309b7db419fe0a3d5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 19/49] fix: Bayesian optimization samples without a model
 while no trial has a result to fit one on

---
 .../optimizers/bayesian_optimization/optimizer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..d943239 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -16,7 +16,7 @@ from neps.optimizers.bayesian_optimization.models.gp import (
     make_default_single_obj_gp,
 )
 from neps.optimizers.initial_design import make_initial_design
-from neps.sampling import Prior
+from neps.sampling import Prior, Sampler
 from neps.search_spaces.encoding import ConfigEncoder
 
 if TYPE_CHECKING:
@@ -165,6 +165,19 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # There is nothing to fit a GP on if all trials so far failed or are still pending
+        if not any(
+            trial.report is not None and trial.report.loss is not None
+            for trial in trials.values()
+        ):
+            sampler = (
+                self.prior
+                if self.prior is not None
+                else Sampler.uniform(ndim=self.encoder.ncols)
+            )
+            candidate = sampler.sample(1, to=self.encoder.domains)
+            return SampledConfig(id=config_id, config=self.encoder.decode(candidate)[0])
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From 8426f2c647d9a574b18c0787ad2ff13f67192f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 20/49] fix: the cost model of Bayesian optimization ignores
 trials without a cost as documented

---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..342c01f 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -365,7 +365,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -373,8 +373,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From 934fb871d70aa7e2976fca9c23454938a81141a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:08 +0000
Subject: [PATCH 21/49] fix: accept arrays and tensors as learning curve of an
 evaluation

---
 neps/state/_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..003bf7c 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -56,7 +56,10 @@ def parse_user_result(
             else:
                 extracted_learning_curve = default_learning_curve
 
-        if extracted_learning_curve == "loss":
+        # NOTE: Comparing an array or tensor with a string is not a single truth value
+        if isinstance(extracted_learning_curve, str) and (
+            extracted_learning_curve == "loss"
+        ):
             extracted_learning_curve = [extracted_loss]
 
         extra = user_result
-- 
2.43.0


From 72b9bfda3c5532d9378ea8cc4abadcbe04e56a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:48 +0000
Subject: [PATCH 22/49] fix: do not remove the learning curve from the
 info_dict object of the user

---
 neps/state/_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index 003bf7c..c1568fe 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,7 +49,10 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # NOTE: This is an object of the user, who may return it again
+                info_dict = dict(user_result["info_dict"])
+                user_result["info_dict"] = info_dict
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
-- 
2.43.0


From 12161bc344e53c8d91aeb0c7d1f92cd80aa16037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:09 +0000
Subject: [PATCH 23/49] fix: store crashed evaluations whose exception can not
 be copied

---
 neps/state/filebased.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 6f465a5..71a8e3f 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -257,7 +257,8 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         report_path = directory / cls.REPORT_FILENAME
         if trial.report is not None:
-            serialize(asdict(trial.report), report_path)
+            # NOTE: Not `asdict()`, which would deepcopy the exception and values of the user
+            serialize(vars(trial.report), report_path)
         else:
             report_path.unlink(missing_ok=True)
 
-- 
2.43.0


From d88f006e144c20828e081d375a05b75a95e3f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 24/49] fix: storing a random state without torch state removes
 the torch state of an earlier version

---
 neps/state/filebased.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 71a8e3f..5a84bdd 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -361,12 +361,16 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
             with atomic_write(torch_rng_path) as tmp_path:
                 torch.save(snapshot.torch_rng, tmp_path)
+        else:
+            torch_rng_path.unlink(missing_ok=True)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
             with atomic_write(torch_cuda_rng_path) as tmp_path:
                 torch.save(snapshot.torch_cuda_rng, tmp_path)
+        else:
+            torch_cuda_rng_path.unlink(missing_ok=True)
 
 
 @dataclass
-- 
2.43.0


From e9ba873c50497030da60c883d811017db898150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:26 +0000
Subject: [PATCH 25/49] fix: decoded values never exceed the bounds of their
 domain by rounding errors

---
 neps/search_spaces/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..3ea950b 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -279,7 +279,8 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        return x.type(dtype)
+        # NOTE: Rounding errors of the scaling may otherwise exceed the bounds
+        return x.type(dtype).clip(self.lower, self.upper)
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
@@ -325,7 +326,7 @@ class Domain(Generic[V]):
             x = torch.exp(x)
             if self.round:
                 x = torch.round(x)
-            return x.type(dtype)
+            return x.type(dtype).clip(self.lower, self.upper)
 
         # Otherwise, through the unit interval we go
         lift = self.from_unit(frm.to_unit(x), dtype=dtype)
-- 
2.43.0


From bc0df9fa820dd051da39a3f13a42107c6864add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:19 +0000
Subject: [PATCH 26/49] fix: integers on a log scale survive being encoded and
 decoded

---
 neps/search_spaces/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 3ea950b..2f8710b 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -242,7 +242,8 @@ class Domain(Generic[V]):
 
         x = (x - lower) / (upper - lower)
 
-        if q is not None:
+        # NOTE: Integers are not evenly spaced in log space, they are only rounded
+        if q is not None and (self.bins or self.log_bounds is None):
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
@@ -263,7 +264,8 @@ class Domain(Generic[V]):
             return x.to(dtype)
 
         q = self.cardinality
-        if q is not None:
+        # NOTE: Integers are not evenly spaced in log space, they are only rounded
+        if q is not None and (self.bins or self.log_bounds is None):
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
-- 
2.43.0


From 637e04d09862976ade55be32829b05308f0495e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:28 +0000
Subject: [PATCH 27/49] fix: casting to a log domain takes the exponential of
 its log bounds, not the other way round

---
 neps/search_spaces/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 2f8710b..f2fe0b3 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -324,7 +324,11 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
+        if (
+            (frm.lower, frm.upper) == self.log_bounds
+            and frm.log_bounds is None
+            and self.cardinality is None
+        ):
             x = torch.exp(x)
             if self.round:
                 x = torch.round(x)
-- 
2.43.0


From e75587d4be24bfa25f2574003d77dd20e6bbfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 28/49] fix: values of a normalized position never exceed the
 bounds of a float by rounding errors

---
 neps/search_spaces/hyperparameters/float.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..494f020 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -171,7 +171,8 @@ class FloatParameter(NumericalParameter[float]):
 
         normalized_value = normalized_value * (high - low) + low
         _value = np.exp(normalized_value) if self.log else normalized_value
-        return float(_value)
+        # rounding errors must not push the value out of its bounds
+        return float(min(self.upper, max(self.lower, _value)))
 
     @override
     def _get_non_unique_neighbors(
-- 
2.43.0


From 874b08e4778ea4fe33c1b8b5644a600598a394fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 29/49] fix: the density of a prior looks at the columns that
 have one

---
 neps/sampling/priors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..ae6b189 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -326,7 +326,8 @@ class CenteredPrior(Prior):
 
         # Calculate the log probabilities of the sample domain tensors under their
         # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
+        # NOTE: `translated_x` only contains the meaningful columns.
+        itr = iter(enumerate(self._meaningful_dists))
         first_i, first_dist = next(itr)
         log_probs = first_dist.log_prob(translated_x[..., first_i])
 
-- 
2.43.0


From 4c346a4c8291a8de23632c4bced61f0cad927b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 30/49] fix: the columns of a prior follow the order of the
 encoder, so priors apply to their own parameter

---
 neps/optimizers/bayesian_optimization/optimizer.py  |  8 ++++----
 neps/optimizers/initial_design.py                   |  3 ++-
 neps/optimizers/multi_fidelity/hyperband.py         | 13 +++++++++----
 neps/optimizers/multi_fidelity/ifbo.py              |  3 ++-
 .../multi_fidelity_prior/async_priorband.py         | 10 +++++++++-
 neps/optimizers/multi_fidelity_prior/priorband.py   | 10 +++++++++-
 6 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index d943239..a521e22 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -120,10 +120,10 @@ class BayesianOptimization(BaseOptimizer):
 
         super().__init__(pipeline_space=pipeline_space)
 
-        params: dict[str, CategoricalParameter | FloatParameter | IntegerParameter] = {
-            **pipeline_space.numerical,
-            **pipeline_space.categoricals,
-        }
+        # NOTE: Same order as the columns of the `ConfigEncoder`
+        params: dict[str, CategoricalParameter | FloatParameter | IntegerParameter] = dict(
+            sorted({**pipeline_space.numerical, **pipeline_space.categoricals}.items())
+        )
         self.encoder = encoder or ConfigEncoder.default(
             params, constants=pipeline_space.constants
         )
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..b8cb94b 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -100,7 +100,8 @@ def make_initial_design(  # noqa: PLR0912, C901
         }
         configs.append({**default, **fids})
 
-    params = {**space.numerical, **space.categoricals}
+    # NOTE: Same order as the columns of the `ConfigEncoder`
+    params = dict(sorted({**space.numerical, **space.categoricals}.items()))
     ndims = len(params)
 
     if sample_size == "ndim":
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..d4230f5 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -551,10 +551,15 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
         self.init_size = n_min + 1  # in BOHB: init_design >= N_min + 2
 
         if self.use_priors:
-            parameters = {
-                **self.pipeline_space.numerical,
-                **self.pipeline_space.categoricals,
-            }
+            # NOTE: Same order as the columns of the `ConfigEncoder`
+            parameters = dict(
+                sorted(
+                    {
+                        **self.pipeline_space.numerical,
+                        **self.pipeline_space.categoricals,
+                    }.items()
+                )
+            )
             prior = Prior.from_parameters(parameters.values())
         else:
             prior = None
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..ec851ea 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -140,7 +140,8 @@ class IFBO(BaseOptimizer):
         self._fidelity_name: str = space.fidelity_name
         self._initial_design: list[dict[str, Any]] | None = None
 
-        params = {**space.numerical, **space.categoricals}
+        # NOTE: Same order as the columns of the `ConfigEncoder`
+        params = dict(sorted({**space.numerical, **space.categoricals}.items()))
         self._prior = Prior.from_parameters(params.values()) if use_priors else None
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..77e1e40 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -118,7 +118,15 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         if self.modelling_type == "joint" and self.initial_design_size is not None:
             self.init_size = self.initial_design_size
 
-        parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
+        # NOTE: Same order as the columns of the `ConfigEncoder`
+        parameters = dict(
+            sorted(
+                {
+                    **self.pipeline_space.numerical,
+                    **self.pipeline_space.categoricals,
+                }.items()
+            )
+        )
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
             prior=Prior.from_parameters(parameters.values()),
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..e5375e5 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -383,7 +383,15 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         self.init_size = n_min + 1  # in BOHB: init_design >= N_min + 2
         if self.modelling_type == "joint" and self.initial_design_size is not None:
             self.init_size = self.initial_design_size
-        parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
+        # NOTE: Same order as the columns of the `ConfigEncoder`
+        parameters = dict(
+            sorted(
+                {
+                    **self.pipeline_space.numerical,
+                    **self.pipeline_space.categoricals,
+                }.items()
+            )
+        )
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
             prior=Prior.from_parameters(parameters.values()),
-- 
2.43.0


From 82dda918f7bbb4221e9641a386fcbad6813ecd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:39 +0000
Subject: [PATCH 31/49] fix: single values and tensors of integers are cast in
 double precision

---
 neps/search_spaces/domain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index f2fe0b3..9f77a93 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -231,8 +231,10 @@ class Domain(Generic[V]):
             raise ValueError(f"Unit interval only allows floating dtypes, got {dtype}.")
 
         q = self.cardinality
+        # NOTE: Dividing a tensor of integers would only have single precision
+        x = x.to(dtype)
         if self.is_unit_float and q is None:
-            return x.to(dtype)
+            return x
 
         if self.log_bounds is not None:
             x = torch.log(x)
@@ -414,7 +416,7 @@ class Domain(Generic[V]):
         Returns:
             Value cast to this domain.
         """
-        return self.cast(torch.tensor(x), frm=frm).item()
+        return self.cast(torch.tensor(x, dtype=torch.float64), frm=frm).item()
 
     def to_unit_one(self, x: float | int) -> float:
         """Transform a single value from this domain to the unit interval [0, 1].
@@ -425,7 +427,7 @@ class Domain(Generic[V]):
         Returns:
             Value normalized to the unit interval [0, 1].
         """
-        return self.to_unit(torch.tensor(x)).item()
+        return self.to_unit(torch.tensor(x, dtype=torch.float64)).item()
 
     def as_integer_domain(self) -> Domain:
         """Get the integer version of this domain.
-- 
2.43.0


From 44a9ce264753c0a79995f25bdf799aae9e9cdf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:39 +0000
Subject: [PATCH 32/49] fix: translating a tensor of integers to float domains
 does not truncate the values

---
 neps/search_spaces/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 9f77a93..fa8476c 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -400,6 +400,10 @@ class Domain(Generic[V]):
                 f" Expected {ndims} from last dimension of {x.shape=}, got {len(to)}."
             )
 
+        # NOTE: A tensor of integers can not hold values of a float domain
+        if dtype is None and not (x.is_floating_point() or all(t.is_int for t in to)):
+            dtype = torch.float64
+
         out = torch.empty_like(x, dtype=dtype)
         for i, (f, t) in enumerate(zip(frm, to, strict=False)):
             out[..., i] = t.cast(x[..., i], frm=f, dtype=dtype)
-- 
2.43.0


From 177b5d061ca15984e7a7a77dd8a492cd5724105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 33/49] fix: parsing a search space changes neither the given
 dictionary nor aliased YAML definitions

---
 neps/search_spaces/search_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index a5483de..e642819 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -4,6 +4,7 @@ which is a container for hyperparameters that can be sampled, mutated, and cross
 
 from __future__ import annotations
 
+import copy
 import logging
 import operator
 import pprint
@@ -138,6 +139,8 @@ def pipeline_space_from_yaml(  # noqa: C901
         if len(config) == 1 and "pipeline_space" in config:
             config = config["pipeline_space"]
         for name, details in config.items():  # type: ignore
+            # Parsing changes the details, which may be shared (YAML aliases)
+            details = copy.deepcopy(details)  # noqa: PLW2901
             param_type = deduce_type(name, details)
 
             if param_type in ("int", "integer"):
-- 
2.43.0


From e22127e5812282b68b7e04e766f2838b9f8bf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 34/49] fix: numbers such as 1e+3 in a YAML search space are
 recognised as scientific notation

---
 neps/search_spaces/yaml_search_space_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index ff6d72a..8e6f7b5 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -46,7 +46,7 @@ def convert_scientific_notation(
         ValueError: If the value is a string and does not represent a valid number.
     """
 
-    e_notation_pattern = r"^-?\d+(\.\d+)?[eE]-?\d+$"
+    e_notation_pattern = r"^[+-]?(\d+\.?\d*|\.\d+)[eE][+-]?\d+$"
 
     flag = False  # Flag if e notation was detected
 
-- 
2.43.0


From 93fa9deb270a42283c926f6c7d14b619e4ff5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 35/49] fix: copies of a parameter keep a confidence that was
 set after its creation

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From fb4a4b3d0453bc1742e55610ed24e4f91b56ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 36/49] fix: integers loaded from plain values are validated
 and normalized like any other parameter

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..6780b82 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From 0645869ec0fce2413f95bb18e66390c3c81723b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 37/49] fix: changing the default of a log integer moves the
 centre of its prior

---
 neps/search_spaces/hyperparameters/integer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 6780b82..63a5125 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -119,12 +119,15 @@ class IntegerParameter(NumericalParameter[int]):
         if default is None:
             self.default = None
             self.has_prior = False
+            self.log_default = None
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
             self.default = _default
             self.has_prior = True
             self.float_hp.set_default(_default)
+            if self.log:
+                self.log_default = float(np.log(_default))
 
     @override
     def set_value(self, value: int | None) -> None:
-- 
2.43.0


From 37dfe7983490c272e43f3e66e4ec15e310f55fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 38/49] fix: a relative root directory keeps its meaning when
 an evaluation changes the working directory

---
 neps/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/api.py b/neps/api.py
index e69c0f4..0c49528 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -213,6 +213,9 @@ def run(
             "skipped. Accurate continuation of runs can no longer be guaranteed!"
         )
 
+    # NOTE: Evaluations may change the working directory of this process
+    settings.root_directory = Path(settings.root_directory).absolute()
+
     if settings.task_id is not None:
         settings.root_directory = Path(settings.root_directory) / (
             f"task_" f"{settings.task_id}"
-- 
2.43.0


From 396788bbeee38421c6529f0a5f8f9bd218834783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 39/49] fix: get_searcher_kwargs returns the settings of the
 searcher asked for, not of one with a longer name

---
 neps/optimizers/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/info.py b/neps/optimizers/info.py
index b2494c2..06e6505 100644
--- a/neps/optimizers/info.py
+++ b/neps/optimizers/info.py
@@ -92,7 +92,7 @@ class SearcherConfigs:
         folder_path = SearcherConfigs._get_searchers_folder_path()
 
         for file in folder_path.iterdir():
-            if file.suffix == ".yaml" and file.stem.startswith(searcher):
+            if file.suffix == ".yaml" and file.stem == searcher:
                 return file.read_text()
 
         raise FileNotFoundError(
-- 
2.43.0


From b01dd2701061ebd5d123fb8b8d953f51dc32e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 40/49] fix: options of the searcher of the run_args file do
 not reach another searcher given in the call

---
 neps/utils/run_args.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/utils/run_args.py b/neps/utils/run_args.py
index 9f5cc60..b52ad8e 100644
--- a/neps/utils/run_args.py
+++ b/neps/utils/run_args.py
@@ -558,8 +558,12 @@ class Settings:
         for key, value in func_args.items():
             # Handle searcher_kwargs for BaseOptimizer case
             if key == SEARCHER_KWARGS:
+                yaml_kwargs = yaml_args.pop(SEARCHER_KWARGS, {})
+                if not isinstance(func_args.get(SEARCHER), Default):
+                    # These belong to the searcher of the yaml, which is not used
+                    yaml_kwargs = {}
                 merged_settings[SEARCHER_KWARGS] = {
-                    **yaml_args.pop(SEARCHER_KWARGS, {}),
+                    **yaml_kwargs,
                     **func_args[SEARCHER_KWARGS],
                 }
             elif not isinstance(value, Default):
-- 
2.43.0


From 7812c3b8f723dfcbe9b37c813f37ce84924ed41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 41/49] fix: searcher=None lets NePS choose the searcher as
 documented

---
 neps/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/api.py b/neps/api.py
index 0c49528..45352b8 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -201,7 +201,9 @@ def run(
 
     # Check to verify if the target directory contains history of another optimizer state
     # This check is performed only when the `searcher` is built during the run
-    if not isinstance(settings.searcher, (BaseOptimizer, str, dict, Path)):
+    if settings.searcher is not None and not isinstance(
+        settings.searcher, (BaseOptimizer, str, dict, Path)
+    ):
         raise ValueError(
             f"Unrecognized `searcher` of type {type(settings.searcher)}. Not str or "
             f"BaseOptimizer."
-- 
2.43.0


From 3df7d3d8d25c472c496a5abc1fcfb431f65a889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 42/49] fix: a searcher class can be used with every kind of
 pipeline_space definition

---
 neps/api.py | 58 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/neps/api.py b/neps/api.py
index 45352b8..b9605c3 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -163,7 +163,7 @@ def run(
     # special case if you load your own optimizer via run_args
     if inspect.isclass(settings.searcher):
         if issubclass(settings.searcher, BaseOptimizer):
-            search_space = SearchSpace(**settings.pipeline_space)
+            search_space = _to_search_space(settings.pipeline_space)
             # aligns with the behavior of the internal neps searcher which also overwrites
             # its arguments by using searcher_kwargs
             # TODO habe hier searcher kwargs gedroppt, sprich das merging muss davor statt
@@ -260,33 +260,15 @@ def run(
         )
 
 
-def _run_args(
-    searcher_info: dict,
+def _to_search_space(
     pipeline_space: (
         dict[str, Parameter | CS.ConfigurationSpace]
         | str
         | Path
         | CS.ConfigurationSpace
         | None
-    ) = None,
-    max_cost_total: int | float | None = None,
-    ignore_errors: bool = False,
-    loss_value_on_error: None | float = None,
-    cost_value_on_error: None | float = None,
-    searcher: (
-        Literal[
-            "default",
-            "bayesian_optimization",
-            "random_search",
-            "hyperband",
-            "priorband",
-            "mobster",
-            "asha",
-        ]
-        | BaseOptimizer
-    ) = "default",
-    **searcher_kwargs,
-) -> tuple[BaseOptimizer, dict]:
+    ),
+) -> SearchSpace:
     try:
         # Raising an issue if pipeline_space is None
         if pipeline_space is None:
@@ -311,11 +293,41 @@ def _run_args(
         pipeline_space = new_pipeline_space
 
         # Transform to neps internal representation of the pipeline space
-        pipeline_space = SearchSpace(**pipeline_space)
+        return SearchSpace(**pipeline_space)
     except TypeError as e:
         message = f"The pipeline_space has invalid type: {type(pipeline_space)}"
         raise TypeError(message) from e
 
+
+def _run_args(
+    searcher_info: dict,
+    pipeline_space: (
+        dict[str, Parameter | CS.ConfigurationSpace]
+        | str
+        | Path
+        | CS.ConfigurationSpace
+        | None
+    ) = None,
+    max_cost_total: int | float | None = None,
+    ignore_errors: bool = False,
+    loss_value_on_error: None | float = None,
+    cost_value_on_error: None | float = None,
+    searcher: (
+        Literal[
+            "default",
+            "bayesian_optimization",
+            "random_search",
+            "hyperband",
+            "priorband",
+            "mobster",
+            "asha",
+        ]
+        | BaseOptimizer
+    ) = "default",
+    **searcher_kwargs,
+) -> tuple[BaseOptimizer, dict]:
+    pipeline_space = _to_search_space(pipeline_space)
+
     # Load the information of the optimizer
     if (
         isinstance(searcher, (str, Path))
-- 
2.43.0


From 9acd2f9e00c829bbd8745576fd6a9efb5ef7c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:26 +0000
Subject: [PATCH 43/49] fix: neps info-config shows trials which are pending or
 running

---
 neps/utils/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..4abe513 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -308,13 +308,17 @@ def sample_config(args: argparse.Namespace) -> None:
     pass
 
 
-def convert_timestamp(timestamp: float) -> str:
+def convert_timestamp(timestamp: float | None) -> str:
     """Convert a UNIX timestamp to a human-readable datetime string."""
+    if timestamp is None:  # e.g. the end of a trial which is still running
+        return "N/A"
     return datetime.fromtimestamp(timestamp).strftime("%Y-%m-%d %H:%M:%S")
 
 
-def format_duration(seconds: float) -> str:
+def format_duration(seconds: float | None) -> str:
     """Convert duration in seconds to a h:min:sec format."""
+    if seconds is None:  # e.g. of a trial which is still running
+        return "N/A"
     duration = str(timedelta(seconds=seconds))
     # Remove milliseconds for alignment
     if "." in duration:
-- 
2.43.0


From 9e755bd2826d1a8a3c0cb0610a62ac317c8ea0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:26 +0000
Subject: [PATCH 44/49] fix: neps results works with failed trials and with ids
 of multi-fidelity searchers

---
 neps/utils/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 4abe513..7b84cfe 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -541,14 +541,17 @@ def results(args: argparse.Namespace) -> None:
         return
 
     trials = neps_state.get_all_trials()
-    # Sort trials by trial ID
-    sorted_trials = sorted(trials.values(), key=lambda x: int(x.id))
+    # Sort trials in the order they were sampled, as ids need not be numbers
+    sorted_trials = sorted(trials.values(), key=lambda x: x.metadata.time_sampled)
 
     # Compute incumbents
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        # NOTE: Failed trials can not be incumbents, they have no loss of their own
+        if trial.state != Trial.State.SUCCESS or trial.report is None:
+            continue
+        if trial.report.loss is not None and trial.report.loss < best_loss:
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0


From 171d284302707f94116324e3b144152498d0ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:26 +0000
Subject: [PATCH 45/49] fix: neps commands do not overwrite cli.md in the
 current directory

---
 neps/utils/cli.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 7b84cfe..e820af5 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -985,8 +985,6 @@ def main() -> None:
     parser_help = subparsers.add_parser("help", help="Displays help information.")
     parser_help.set_defaults(func=print_help)
 
-    # updating documentation
-    generate_markdown_from_parser(parser, "cli.md")
     args = parser.parse_args()
 
     if hasattr(args, "func"):
-- 
2.43.0


From c813ddb068cd599652a95084d03be55b9501ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 46/49] fix: tblogger logs all entries of a trial under the
 same tag

---
 neps/plot/tensorboard_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..f53c9d7 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -103,7 +103,9 @@ class tblogger:  # noqa: N801
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
+        if not tblogger._is_initialized():
+            # NOTE: Afterwards it is the id which all entries of this trial are logged with
+            tblogger.config_id = trial.metadata.id
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
-- 
2.43.0


From 1328ab651adba75011a3820a3c1c399e8680fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 47/49] fix: tblogger writes the incumbents of a run to the
 directory of that run

---
 neps/plot/tensorboard_eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index f53c9d7..dd6039e 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -444,6 +444,8 @@ class tblogger:  # noqa: N801
 
         tblogger.summary_writer.flush()
         tblogger.summary_writer.close()
+        # The next run in this process may have another directory
+        tblogger.summary_writer = None
 
     @staticmethod
     def disable() -> None:
-- 
2.43.0


From 9743bccfd0adb1d5d0476ba1ccd7d0cf72f0d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 48/49] fix: trial-end callbacks are called when the result of
 a trial is invalid

---
 neps/runtime.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 8ceed41..2cdd1ae 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -111,9 +111,11 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
     try:
-        yield
-        for _key, callback in _TRIAL_END_CALLBACKS.items():
-            callback(trial)
+        try:
+            yield
+        finally:
+            for _key, callback in _TRIAL_END_CALLBACKS.items():
+                callback(trial)
     finally:
         _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
-- 
2.43.0


From d3b467fefe940f16944ae9e576a581d8ae9b94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:49 +0000
Subject: [PATCH 49/49] fix: trials which log nothing do not touch the tblogger
 summary of an earlier run

---
 neps/plot/tensorboard_eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index dd6039e..936c845 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -153,6 +153,8 @@ class tblogger:  # noqa: N801
             tblogger.config_writer = None
 
         if tblogger.write_incumbent:
+            # Only trials which log something update the incumbents of their run
+            tblogger.write_incumbent = None
             tblogger._tracking_incumbent_api()
 
     @staticmethod
-- 
2.43.0

