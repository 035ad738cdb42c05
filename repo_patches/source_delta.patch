From 5414c45c923a99d4f3e5b32e523fee86a4585970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 01/55] fix: seconds_to_t rounds to the nearest nanosecond
 instead of truncating

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..90f1ce4 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(round(seconds, ndigits=9) * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 7e8f3bf36edc9dcd0d5bd14be04fae5010be84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 02/55] fix: ElectricFieldCombinator sizes its output from
 (rows, columns) in the right order

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From ef088317d09f8e8f10a3e143eb0ff8d8fb87e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 03/55] fix: LoopControl.niters counts the iterations that
 run() really executes

run() iterates while t < t0+run_time, that is ceil(run_time/dt) times whatever
t0 is. niters() used floor((run_time+t0)/dt), so the last-iteration flag
(which suppresses the sends nobody will receive) was raised on a wrong
iteration when t0 was not zero or run_time not a multiple of dt.
---
 specula/loop_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..033e29a 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,7 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
-- 
2.43.0


From da7e53ad896f9dca2a1c85efd7ccc4f4ec6fd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 04/55] fix: a wrong input type is reported with the intended
 TypeError

check_input_names built its message from InputValue.type, which does not exist:
the mismatch surfaced as an AttributeError.
---
 specula/base_processing_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..c975ffa 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -302,7 +302,7 @@ class BaseProcessingObj(BaseTimeObj):
             if not isinstance(self.inputs[k], (InputValue, InputList)):
                 raise TypeError(f"Input {k} must be an InputValue or an InputList")
             if self.inputs[k].output_ref_type is not v[0]:
-                raise TypeError(f"Input {k} must be of type {v[0]}, but got {self.inputs[k].type}")
+                raise TypeError(f"Input {k} must be of type {v[0]}, but got {self.inputs[k].output_ref_type}")
 
         for k in self.inputs:
             if not k in input_dict:
-- 
2.43.0


From a2122ba8b7f5f1bc186925da8dd5b702c91c6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 05/55] fix: DataStore counts the last sample only once when
 downsampling

finalize() triggers once more at the last instant, which advanced the
per-input sample counters again: with a downsampling factor the last
sample was stored although its turn had not come.
---
 specula/processing_objects/data_store.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..fdfaf2b 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,7 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.input_sample_times = {}
         self.init_storage()
 
     @classmethod
@@ -101,8 +102,12 @@ class DataStore(BaseProcessingObj):
 
     def _should_store_input(self, input_name):
         every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)
-        sample_idx = self.input_sample_counters[input_name]
-        self.input_sample_counters[input_name] += 1
+        # The additional trigger in finalize() sees the last sample again:
+        # count each sample only once
+        if self.input_sample_times.get(input_name) != self.current_time:
+            self.input_sample_times[input_name] = self.current_time
+            self.input_sample_counters[input_name] += 1
+        sample_idx = self.input_sample_counters[input_name] - 1
         return sample_idx % every == 0
 
     def _downsampling_for_input(self, input_name):
-- 
2.43.0


From a53e9cf855acdc573bc8d3e28ce1375f0eee25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/55] fix: DataStore keeps integer times in pickle files

The times were stored with the floating point precision of the object. In
single precision, instants beyond 2**24 ns were rounded, and a replay from
such a file did not find its samples any more.
---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index fdfaf2b..75fb89c 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -128,7 +128,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From 59334e31a2b919f1ff0e9589301aab16b1b04255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 07/55] fix: BaseFilter publishes its commands, not views on
 its delay line

With an integer delay the published command was a view of the delay buffer,
which the next prepare_trigger() shifts in place: an object reading the
delayed output (':-1') in the same trigger level saw the command of one step
later than the one published.
---
 specula/processing_objects/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_filter.py b/specula/processing_objects/base_filter.py
index 1252bb4..0e3bd70 100644
--- a/specula/processing_objects/base_filter.py
+++ b/specula/processing_objects/base_filter.py
@@ -136,11 +136,13 @@ class BaseFilter(BaseProcessingObj):
                 output = (remainder_delay * self.output_buffer[:, delay_idx] +
                          (1 - remainder_delay) * self.output_buffer[:, delay_idx - 1])
 
-        self.out_comm.value = output
+        # Publish copies: the delay buffer is shifted in place by the next prepare_trigger(),
+        # before other objects of the same iteration may have read this output
+        self.out_comm.value = output.copy()
         self.out_comm.generation_time = self.current_time
 
         # No-delay output (for POLC)
-        self.out_comm_no_delay.value = self.output_buffer[:, 0]
+        self.out_comm_no_delay.value = self.output_buffer[:, 0].copy()
         self.out_comm_no_delay.generation_time = self.current_time
 
     @abstractmethod
-- 
2.43.0


From 5ad67ac6e42d787f6f017703996423db00cc481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 08/55] fix: build_targeted_replay keeps the other members of
 an input list

When one member of a list input was stored, the whole list was replaced by
that single stored output, silently dropping the other inputs (e.g. the
atmospheric layers of a propagation whose DM layer was stored). The
replacement was also written into the caller's parameters, because the copy
was shallow.
---
 specula/simul.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..c3052ac 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -810,7 +810,7 @@ class Simul():
             if key in replay_params:
                 return
 
-            replay_params[key] = params[key].copy()
+            replay_params[key] = deepcopy(params[key])
 
             # Add all inputs
             for k, _input in self.iterate_inputs(params[key]):
@@ -818,7 +818,15 @@ class Simul():
                 # Use the complete key for lookup
                 complete_key = f"{desc.obj_name}.{desc.output_key}"
                 if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
+                    new_input = 'data_source.' + datastore_outputs[complete_key]
+                    if desc.input_name is not None:
+                        new_input = desc.input_name + '-' + new_input
+                    if type(params[key]['inputs'][k]) is list:
+                        # Replace this element only, keeping the other ones
+                        newlist = replay_params[key]['inputs'][k]
+                        newlist[newlist.index(_input)] = new_input
+                    else:
+                        replay_params[key]['inputs'][k] = new_input
                     continue
                 else:
                     add_key(desc.obj_name)
-- 
2.43.0


From 83d6d55dde9d8db8fd0541ea95b564308ad81645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:08 +0000
Subject: [PATCH 09/55] fix: LowPassFilter without n_ord uses the default
 filter order

---
 specula/processing_objects/low_pass_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..28ab0ed 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -27,9 +27,12 @@ class LowPassFilter(IirFilter):
                 raise ValueError('Only one of amplif_fact and n_ord can be specified')
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
-        else:
+        elif n_ord is not None:
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
+        else:
+            iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq,
+                                                        target_device_idx=target_device_idx)
 
         # Initialize IirFilter object
         super().__init__(simul_params, iir_filter_data, delay=delay,
-- 
2.43.0


From da8acc7e5e05bda83e0109aec370a1ecf572a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:34 +0000
Subject: [PATCH 10/55] fix: from_control_tf keeps the delay of a transfer
 function with a shorter numerator

---
 specula/data_objects/iir_filter_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..2753ae4 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -1085,8 +1085,13 @@ class IirFilterData(BaseDataObj):
             # Store actual orders (length of coefficient arrays)
             ord_num[i] = len(num_coeffs)
             ord_den[i] = len(den_coeffs)
+            if len(num_coeffs) < len(den_coeffs):
+                # The missing high order terms of the numerator are zeros (a delay)
+                # and must not be shifted away
+                ord_num[i] = max_len
+                num_coeffs = np.pad(num_coeffs, (len(den_coeffs) - len(num_coeffs), 0))
 
-            # Pad with zeros at the beginning (highest order terms first)
+            # Pad with zeros at the beginning (lowest order terms first)
             num[i, max_len - len(num_coeffs):] = num_coeffs[::-1]
             den[i, max_len - len(den_coeffs):] = den_coeffs[::-1]
 
-- 
2.43.0


From cf692d388fe3a1f0e386657256197b61577bc738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 11/55] fix: sub_ef of a non-square region has the shape of the
 region

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..76be646 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -258,7 +258,7 @@ class ElectricField(BaseDataObj):
             idx = self.xp.unravel_index(idx, self.field[0].shape)
             xfrom, xto = self.xp.min(idx[0]), self.xp.max(idx[0])
             yfrom, yto = self.xp.min(idx[1]), self.xp.max(idx[1])
-        sub_ef = ElectricField(xto - xfrom, yto - yfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
+        sub_ef = ElectricField(yto - yfrom, xto - xfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
         sub_ef.field[0, :] = self.field[0, xfrom:xto, yfrom:yto]
         sub_ef.field[1, :] = self.field[1, xfrom:xto, yfrom:yto]
         sub_ef.S0 = self.S0
-- 
2.43.0


From 1cad29f360a1189e9ee068b460a839898f3fd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 12/55] fix: product without subrect multiplies by the whole
 field as documented

---
 specula/data_objects/electric_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 76be646..8db9272 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -200,6 +200,8 @@ class ElectricField(BaseDataObj):
             The subrectangle to multiply (top-left coordinate into ef2. Default: None, which means all of ef2).
         """
 #        subrect = self.checkOther(ef2, subrect=subrect)    # TODO check subrect from atmo_propagation, even in PASSATA it does not seem right
+        if subrect is None:
+            subrect = [0, 0]
         x2 = subrect[0] + self.size[0]
         y2 = subrect[1] + self.size[1]
         self.field[0] *= ef2.field[0, subrect[0] : x2, subrect[1] : y2]
-- 
2.43.0


From c1343df8b4e7746fba074b6f430ab159d2fd131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 13/55] fix: effective wind direction is computed with arctan2

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0


From b2c5ce23f16c852519e428ba9c87a97780367da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:38 +0000
Subject: [PATCH 14/55] fix: make_mask centeronpixel looks for the nearest
 pixel along the right axis

---
 specula/lib/make_mask.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/lib/make_mask.py b/specula/lib/make_mask.py
index d7988e0..2107936 100644
--- a/specula/lib/make_mask.py
+++ b/specula/lib/make_mask.py
@@ -42,17 +42,17 @@ def make_mask(np_size, obsratio=0.0, diaratio=1.0, xc=0.0, yc=0.0,
 
     # Adjust center if centeronpixel is set
     if centeronpixel:
-        idx_x = closest(xc, x[:, 0], xp=xp)
-        neighbours_x = [abs(x[idx_x-1, 0] - xc), abs(x[idx_x+1, 0] - xc)]
+        idx_x = closest(xc, x[0, :], xp=xp)
+        neighbours_x = [abs(x[0, idx_x-1] - xc), abs(x[0, idx_x+1] - xc)]
         idxneigh_x = xp.argmin(xp.array(neighbours_x))
         kx = -0.5 if idxneigh_x == 0 else 0.5
-        xc = x[idx_x, 0] + kx * (x[1, 0] - x[0, 0])
+        xc = x[0, idx_x] + kx * (x[0, 1] - x[0, 0])
 
-        idx_y = closest(yc, y[0, :], xp=xp)
-        neighbours_y = [abs(y[0, idx_y-1] - yc), abs(y[0, idx_y+1] - yc)]
+        idx_y = closest(yc, y[:, 0], xp=xp)
+        neighbours_y = [abs(y[idx_y-1, 0] - yc), abs(y[idx_y+1, 0] - yc)]
         idxneigh_y = xp.argmin(xp.array(neighbours_y))
         ky = -0.5 if idxneigh_y == 0 else 0.5
-        yc = y[0, idx_y] + ky * (y[0, 1] - y[0, 0])
+        yc = y[idx_y, 0] + ky * (y[1, 0] - y[0, 0])
 
     ir = obsratio
 
-- 
2.43.0


From b0c7d3c30f4dc9372d8d590e65251a1f158ac27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 15/55] fix: Intmat.restore gives each restored field to the
 right constructor argument

---
 specula/data_objects/intmat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..9611f4b 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -170,7 +170,8 @@ class Intmat(BaseDataObj):
                 slope_rms = hdul[3].data.copy()
             else:
                 slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms, pupdata_tag=pupdata_tag,
+                      subapdata_tag=subapdata_tag, norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From bb608b1166d427025001fa9a2955527e59e6740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 16/55] fix: a Source at infinity can be saved and restored

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..00b0816 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot hold an infinite number
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From ffe489a8bb81503b68a71f8240731460c6f1d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 17/55] fix: default pupil_size_m of GaussianConvolutionKernel
 is a number

---
 specula/data_objects/gaussian_convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..6bfa7d2 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -15,7 +15,7 @@ class GaussianConvolutionKernel(ConvolutionKernel):
                  pxscale: float,
                  dimension: int,
                  spot_size: float,
-                 pupil_size_m: 0.0=float,
+                 pupil_size_m: float=0.0,
                  oversampling: int=1,
                  return_fft: bool=True,
                  positive_shift_tt: bool=True,
-- 
2.43.0


From 2a57709ecb369fc0e70aa0c52e1686b43443bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 18/55] fix: GaussianConvolutionKernel.restore works on a
 kernel whose memory was released

---
 specula/data_objects/gaussian_convolution_kernel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 6bfa7d2..f43ec97 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -103,6 +103,13 @@ class GaussianConvolutionKernel(ConvolutionKernel):
             kernel_obj.oversampling = hdr['OVERSAMP']
             kernel_obj.positive_shift_tt = hdr['POSTT']
 
+        # Reallocate real_kernels if it was deallocated
+        if kernel_obj.real_kernels is None:
+            kernel_obj.real_kernels = kernel_obj.xp.zeros(
+                (kernel_obj.dimx * kernel_obj.dimy, kernel_obj.dimension, kernel_obj.dimension),
+                dtype=kernel_obj.dtype
+            )
+
         # This code uses an intermediate array to make sure that endianess is correct (FITS is big-endian)
         data = kernel_obj.xp.array(fits.getdata(filename, ext=1), dtype=kernel_obj.dtype)
         kernel_obj.real_kernels[:] = data
-- 
2.43.0


From 664de6c6ee64e154952e42035103109e16e2a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 19/55] fix: a kernel loaded from the cache is in the same
 domain as a computed one

---
 specula/data_objects/convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..5047386 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -362,7 +362,7 @@ class ConvolutionKernel(BaseDataObj):
             if os.path.exists(full_path):
                 print(f"Loading kernel from {full_path}")
                 self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
+                             return_fft=self.return_fft)
             else:
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
-- 
2.43.0


From 729dc4afa141d9f50a2dd03913efe32f82c38456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 20/55] fix: Slopes.resize keeps the last element of an
 odd-sized vector, as the constructor does

---
 specula/data_objects/slopes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 1ee20ef..5783184 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -73,7 +73,7 @@ class Slopes(BaseDataObj):
             self.indices_y = self.indices_x + 1
         else:
             self.indices_x = self.xp.arange(0, self.size // 2)
-            self.indices_y = self.indices_x + self.size // 2
+            self.indices_y = self.xp.arange(self.size//2, self.size) # as in __init__
 
     @property
     def size(self):
-- 
2.43.0


From fd104a1b2f29b816d5c4d5f0189c863d6a82ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 21/55] fix: ModalAnalysis works when its fields come from a
 list input

---
 specula/processing_objects/modal_analysis.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..fa94de5 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -176,23 +176,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
-
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
                 m = self.xp.dot(current_ef.phaseInNm, self.phase2modes.ifunc_inv)
-- 
2.43.0


From 182ac0f68894700bc741fe5ffa12630089cb1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 22/55] fix: POLC reads the values of a list of commands

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..90f355d 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,7 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
-- 
2.43.0


From 9cace32de381052e983b1faecb5ed9279ce17e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 23/55] fix: POLC works without a projection matrix, as its
 trigger code expects

---
 specula/processing_objects/modalrec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 90f355d..be8ed13 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -84,7 +84,7 @@ class Modalrec(BaseProcessingObj):
             in_commands_size = intmat.intmat.shape[1]
         self.in_commands_size = in_commands_size
 
-        if polc:
+        if polc and self.projmat is not None:
             nmodes = self.projmat.nmodes
         else:
             nmodes = self.recmat.nmodes
@@ -199,7 +199,7 @@ class Modalrec(BaseProcessingObj):
                 output_modes = self.projmat.recmat @ self.pseudo_ol_modes.value
 
             # (3) remove the effect of the commands
-            output_modes -= self.commands
+            output_modes = output_modes - self.commands
 
         else:
             output_modes = self.recmat.recmat @ self.slopes
-- 
2.43.0


From 544a822b0a0a507fefc23790dd25c679c7bd1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 24/55] fix: Modalrec takes the number of modes of an
 interaction matrix from its own attribute

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index be8ed13..7125009 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -44,7 +44,7 @@ class Modalrec(BaseProcessingObj):
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
                     if nmodes:
-                        nmodesintmat = intmat.size[0]
+                        nmodesintmat = intmat.nmodes
                         intmat.reduce_size(nmodesintmat - nmodes)
                     if nSlopesToBeDiscarded:
                         intmat.reduce_slopes(nSlopesToBeDiscarded)
-- 
2.43.0


From 1b5fb84ddfcf6fd342a7d843539fe4cad729d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 25/55] fix: DM layer has the shape of a non-square mask

---
 specula/processing_objects/dm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dm.py b/specula/processing_objects/dm.py
index 2c932b1..0891e99 100644
--- a/specula/processing_objects/dm.py
+++ b/specula/processing_objects/dm.py
@@ -140,7 +140,7 @@ class DM(BaseProcessingObj):
 
         self.if_commands_selector = slice(0, self.n_valid_modes)
 
-        self.layer = Layer(s[0], s[1], self.pixel_pitch, height, target_device_idx=target_device_idx, precision=precision)
+        self.layer = Layer(s[1], s[0], self.pixel_pitch, height, target_device_idx=target_device_idx, precision=precision)
         self.layer.A = self._ifunc.mask_inf_func
 
         self.nmodes = nmodes - start_mode   # Input command vector is not supposed to include the modes before "start_mode"
-- 
2.43.0


From 28ad43f103b9247869702f62eb3b2d03be8241da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 26/55] fix: rebin2d compares the number of columns with the
 input columns

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From 01782d776fbaee1bb628ef11e8f28579de605111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 27/55] fix: rebin2d samples with integer indexes

---
 specula/lib/rebin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index 9efd4be..955877f 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -40,9 +40,9 @@ def rebin2d(a, shape, sample=False, xp=None):
         return a
 
     if sample:
-        slices = [ slice(0,old, float(old)/new) for old,new in zip(a.shape,shape) ]
-        idx = xp.mgrid[slices].astype(xp.int32)
-        return a[tuple(idx)]
+        # Integer arithmetic: float steps can change the length or the indexes
+        rows, cols = [(xp.arange(new) * old) // new for old, new in zip(a.shape, shape)]
+        return a[rows[:, None], cols]
 
     else:
         M, N = a.shape
-- 
2.43.0


From fc4ec493f15ca8a663358517885172812387d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 28/55] fix: EFInterpolator.update_parameters keeps the
 parameters not given

---
 specula/lib/extrapolation_2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 2fb0240..794672e 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -347,14 +347,15 @@ class EFInterpolator():
                           rotAnglePhInDeg=None, magnification=None):
         """Re-initialize the internal Interp2D object with new misalignment parameters."""
 
-        if magnification < 1e-6:
+        if magnification is not None and magnification < 1e-6:
             raise ValueError("Magnification must be greater than 1e-6 to avoid numerical issues.")
 
         # Retrieve current parameters if not provided
         current_rot = -self.interp.rot_angle * 180.0 / np.pi
 
-        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_x)
-        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_y)
+        # x and y are swapped in Interp2D (rowShift = xShift, colShift = yShift)
+        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_x)
         new_rot = rotAnglePhInDeg if rotAnglePhInDeg is not None else current_rot
         new_mag = magnification if magnification is not None else float(self.interp.magnification)
 
-- 
2.43.0


From ea4df1978f55d85d2d4f736aedb3b0f065a2454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 29/55] fix: EFInterpolator output has the shape of a
 non-square field

---
 specula/lib/extrapolation_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 794672e..1e504d7 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -302,8 +302,8 @@ class EFInterpolator():
                       target_device_idx, precision)
             if ef_key not in self.__ef_cache:
                 self.__ef_cache[ef_key] = ElectricField(
-                    out_shape[0],
                     out_shape[1],
+                    out_shape[0],
                     in_ef.pixel_pitch / oversampling_factor,
                     target_device_idx=target_device_idx,
                     precision=precision
@@ -312,8 +312,8 @@ class EFInterpolator():
         else:
             # Create a new ElectricField without caching
             self.out_ef = ElectricField(
-                out_shape[0],
                 out_shape[1],
+                out_shape[0],
                 in_ef.pixel_pitch / oversampling_factor,
                 target_device_idx=target_device_idx,
                 precision=precision
-- 
2.43.0


From c39f1be5c78e094acc9a53c3283018ad6aa5cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 30/55] fix: PyrSlopec accepts shlike

---
 specula/processing_objects/pyr_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..fddb1ef 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -44,7 +44,7 @@ class PyrSlopec(Slopec):
         if shlike and slopes_from_intensity:
             raise ValueError('Both SHLIKE and SLOPES_FROM_INTENSITY parameters are set. Only one of these should be used.')
 
-        if shlike and norm_factor != 0:
+        if shlike and norm_factor:
             raise ValueError('Both SHLIKE and NORM_FACTOR parameters are set. Only one of these should be used.')
 
         self.shlike = shlike
@@ -124,7 +124,7 @@ class PyrSlopec(Slopec):
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
         else:
-            if self.norm_factor is not None:
+            if self.norm_factor is not None and not self.shlike:
                 inv_factor[0] = self.norm_factor
                 factor = 1.0 / inv_factor[0]
             elif not self.shlike:
-- 
2.43.0


From e7d298c24dca97cf93cd56e45859b957d41a22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 31/55] fix: PyrSlopec slopes of a dark frame are zero

---
 specula/processing_objects/pyr_slopec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index fddb1ef..1913cbb 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -137,8 +137,9 @@ class PyrSlopec(Slopec):
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
         clamp_generic_more(0, 1, inv_factor, xp=self.xp)
-        self.sx *= inv_factor[0]
-        self.sy *= inv_factor[0]
+        # Without light the normalization is 1/0: the slopes are zero, not NaN
+        self.sx = self.xp.where(inv_factor[0] == 0, 0, self.sx * inv_factor[0])
+        self.sy = self.xp.where(inv_factor[0] == 0, 0, self.sy * inv_factor[0])
 
         self.slopes.xslopes = self.sx
         self.slopes.yslopes = self.sy
-- 
2.43.0


From 5e09b17e87ef25e49c1993765ed126ac5912425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 32/55] fix: ShSlopec slopes of a dark frame are zero

---
 specula/processing_objects/sh_slopec.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..62c8ba2 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -275,11 +275,8 @@ class ShSlopec(Slopec):
         mean_subap_tot = self.xp.mean(subap_tot)
         factor = 1.0 / subap_tot
 
-# TEST replacing these three lines with clamp_generic_more
-#        idx_le_0 = self.xp.where(subap_tot <= mean_subap_tot * 1e-3)[0]
-#        if len(idx_le_0) > 0:
-#            factor[idx_le_0] = 0.0
-        clamp_generic_more( 1.0 / (mean_subap_tot * 1e-3), 0, factor, xp=self.xp)
+        # No slope where there is (almost) no light
+        factor[subap_tot <= mean_subap_tot * 1e-3] = 0.0
 
         # Compute slopes
         sx = self.xp.sum(pixels * self.xweights_flat * factor[self.xp.newaxis, :], axis=0)
-- 
2.43.0


From 624c413084b56d199a932480f88a81638b9273de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 33/55] fix: ShSlopec follows a list of weighting radii

---
 specula/processing_objects/sh_slopec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index 62c8ba2..917bab6 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -167,9 +167,10 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            vec = np.asarray(self.vec_wei_pix_rad_t)
+            idxW = np.where(self.current_time_seconds > vec[:, 1])[0]
             if len(idxW) > 0:
-                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
+                self.weighted_pix_rad = float(vec[idxW[-1], 0])
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
                 self.set_xy_weights()
-- 
2.43.0


From d978ef036d80bb270a76988fa5f5d460770f1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 34/55] fix: maps of curvature and Zernike sensor slopes cover
 the frame

---
 specula/processing_objects/cur_wfs_slopec.py | 2 +-
 specula/processing_objects/zwfs_slopec.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..69c24af 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -76,7 +76,7 @@ class CurWfsSlopec(Slopec):
         self.outputs['out_pupdata'] = self.pupdata
 
         # Setup slopes display mapping (using the first pupdata as geometric reference)
-        self.slopes.single_mask = self.pupdata.single_mask()
+        self.slopes.single_mask = self.pupdata.complete_mask()
         self.slopes.display_map = self.pupdata.display_map
 
         self.flat_p1 = None
diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..4b3ca28 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -54,7 +54,7 @@ class ZwfsSlopec(Slopec):
 
         self.outputs['out_pupdata'] = self.pupdata
         
-        self.slopes.single_mask = self.pupdata.single_mask() # unsure if this is needed
+        self.slopes.single_mask = self.pupdata.complete_mask() # unsure if this is needed
         self.slopes.display_map = self.pupdata.display_map # unsure if this is needed
 
         all_idx = self.pupdata.pupil_idx(0).astype(self.xp.int64)
-- 
2.43.0


From 694fa494e9d8fba40f275efe423008d42800f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 35/55] fix: CurWfsSlopec does not count photons on dark pixels

---
 specula/processing_objects/cur_wfs_slopec.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 69c24af..5f1233b 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,7 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
-
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From cf21224e5e0a4d42b954ebd74f5f678612b5f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 36/55] fix: layers cover the displaced pupil (squared
 distance)

---
 specula/processing_objects/atmo_evolution.py          | 2 +-
 specula/processing_objects/atmo_infinite_evolution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..76e0cf5 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -107,7 +107,7 @@ class AtmoEvolution(BaseProcessingObj):
         fov_rad = fov * ASEC2RAD
         self.pixel_layer = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + abs(self.pupil_distances) / self.pixel_pitch * fov_rad) / 2.0
         ) * 2.0
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..3745efa 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -117,7 +117,7 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
         # Compute layers dimension in pixels
         self.pixel_layer_size = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + 2.0 * abs(self.pupil_distances) / self.pixel_pitch * rad_alpha_fov) / 2.0
         ) * 2.0
-- 
2.43.0


From ddd4c2909bdcdf614c09dbbf087eaf1f758b24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 37/55] fix: AtmoPropagation without merging has one field for
 each layer

---
 specula/processing_objects/atmo_propagation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..4cb7732 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -312,7 +312,9 @@ class AtmoPropagation(BaseProcessingObj):
         super().post_trigger()
 
         for source_name in self.source_dict.keys():
-            self.outputs['out_'+source_name+'_ef'].generation_time = self.current_time
+            output = self.outputs['out_'+source_name+'_ef']
+            for ef in output if isinstance(output, list) else [output]:
+                ef.generation_time = self.current_time
 
     @staticmethod
     def _pressure_nasa(h_asl):
@@ -491,7 +493,7 @@ class AtmoPropagation(BaseProcessingObj):
         if not self.mergeLayersContrib:
             for name, source in self.source_dict.items():
                 self.outputs['out_'+name+'_ef'] = []
-                for _ in range(self.nAtmoLayers):
+                for _ in self.common_layer_list + self.atmo_layer_list:
                     ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx)
                     ef.S0 = source.phot_density()
                     self.outputs['out_'+name+'_ef'].append(ef)
-- 
2.43.0


From 593f992bbff5446c5bb96f2c2578c62a2eca463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 38/55] fix: Lyot masks follow the outer working angle and the
 edge position

---
 specula/processing_objects/lyot_coronagraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6073f3b..7cc7e60 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -64,9 +64,10 @@ class LyotCoronagraph(Coronagraph):
         # Mask centered on the crosshair between 4 pixels
         # coehrent with center_on_pixel=False in the parent class
         if self._knife_edge:
-            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
+            xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
+            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res * self.fov_res \
+            owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
                               if self._owa is not None else self.fft_totsize
             fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled * 2
             fp_diaratio = owa_oversampled / self.fft_totsize
-- 
2.43.0


From f98073587f1f47fa2e9c62189356c85376b58e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 39/55] fix: apodizer masks: working angles in lambda/D, Lyot
 stop applied, knife edge usable

---
 specula/processing_objects/apodizer_coronagraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 10edc51..23dc643 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -58,10 +58,10 @@ class APPCoronagraph(Coronagraph):
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
         fp_obsratio = iwa / owa
-        fp_diaratio = (owa * self.fft_res * self.fov_res) / self.fft_sampling
+        fp_diaratio = 2 * (owa * self.fft_res * self.fov_res) / self.fft_totsize
         where = make_mask(self.fft_totsize, diaratio=fp_diaratio, obsratio=fp_obsratio, xp=self.xp)
         if symmetric_dark_hole is False:
-            xc = (iwa * self.fft_res * self.fov_res)/ self.fft_sampling + 1.0
+            xc = 2 * (iwa * self.fft_res * self.fov_res)/ self.fft_totsize + 1.0
             left = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
             where = self.xp.logical_and(where,left)
         target_contrast[where.astype(bool)] = contrast
@@ -114,7 +114,7 @@ class PAPLCoronagraph(APPCoronagraph):
                              f' {innerStopAsRatioOfPupil*1e+2:1.0f}% of pupil,'
                              f' outer size is {outerStopAsRatioOfPupil*1e+2:1.0f}% of pupil')
 
-        if knife_edge is True and owaInLambdaOverD is not None:
+        if knife_edge is True and fpmOWAInLambdaOverD is not None:
             raise ValueError('OWA cannot be defined for the knife-edge focal plane mask')
 
         self._knife_edge = knife_edge
@@ -144,14 +144,14 @@ class PAPLCoronagraph(APPCoronagraph):
             xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa / owa_oversampled
+            owa_oversampled = self._owa * self.fft_res * 2 if self._owa is not None else self.fft_totsize
+            fp_obsratio = self._iwa * self.fft_res / owa_oversampled * 2
             fp_diaratio = owa_oversampled / self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-    def make_pupil_stop(self):
+    def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
                             obsratio=self._inPupilStop, xp=self.xp)
         return pp_mask
-- 
2.43.0


From e11231ffe3e0580186362449efb05d1abf56d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 40/55] fix: error handlers of the dynamic blocks used
 e.__name__ and raised AttributeError

---
 specula/processing_objects/dynamic_dark_calibrator.py       | 4 ++--
 specula/processing_objects/dynamic_iir_filter.py            | 2 +-
 specula/processing_objects/dynamic_integrator.py            | 2 +-
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..44bb5c4 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -205,7 +205,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.restore(fullpath)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..1678751 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -91,4 +91,4 @@ class DynamicIntegrator(Integrator):
                 int_gain = float(gain_input.value)
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..2bb117e 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From 62e10e170075007a933e1cc6639087d2e07d6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 41/55] fix: VibrationGenerator lost the last sample when
 total_time is not a multiple of time_step in binary

---
 specula/processing_objects/vibration_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 28a9891..05deffb 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -125,7 +125,7 @@ class VibrationGenerator(BaseGenerator):
 
         # Setup vibration generator
         samp_freq = 1 / simul_params.time_step
-        niter = int(simul_params.total_time / simul_params.time_step)
+        niter = int(round(simul_params.total_time / simul_params.time_step))
 
         self.time_hist = get_vibrations_time_hist(
             nmodes, psd=psd, freq=freq, seed=seed,
-- 
2.43.0


From e881c099f890bd0ea2bcbce994cd11cd3a58ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 42/55] fix: DynamicDarkCalibrator ignored in_load, divided by
 the wrong number of frames and integrated frames twice

---
 .../processing_objects/dynamic_dark_calibrator.py   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 44bb5c4..800f324 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.nframes_acquired = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -164,11 +165,15 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         if self.counter == 0:
             return
 
+        # Each frame is integrated only once, even if we are triggered again by other inputs
+        if self.local_inputs['in_pixels'].generation_time != self.current_time:
+            return
+
         self.integrated_pixels += value
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes_acquired).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
@@ -178,7 +183,11 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         # Check if new trigger or nframes value is received at this time step
         input_trigger = self.local_inputs['in_trigger']
         if input_trigger is not None and input_trigger.generation_time == self.current_time:
+            # Start a new acquisition, discarding any partial one.
             self.counter = self.nframes
+            self.nframes_acquired = self.nframes
+            if self.integrated_pixels is not None:
+                self.integrated_pixels *= 0
 
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
@@ -202,7 +211,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 088350caae0b7d742ada33cfde7d8a2505dfe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 43/55] fix: DynamicPyrPupdataCalibrator crashed without dt and
 ignored in_output_tag

---
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 2bb117e..88537ce 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -145,6 +145,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        input_output_tag = self.local_inputs['in_output_tag']
+        if input_output_tag is not None and input_output_tag.generation_time == self.current_time:
+            self.filename = str(input_output_tag.value)
+
     def trigger_code(self):
 
         try:
@@ -164,7 +168,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From 0393a6b1e45d7d5bc44d177fab5b3bf83dcb0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 44/55] fix: ImCalibrator assigned pokes of negative modes to
 the last columns, verbose output crashed

---
 specula/processing_objects/im_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From 966ea80e776cf338aeeb82cf03b1dc35176ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 45/55] fix: multi calibrators joined data_dir twice and
 created the folder after the first save

---
 specula/processing_objects/multi_im_calibrator.py  | 4 ++--
 specula/processing_objects/multi_rec_calibrator.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..f311fb3 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -145,7 +145,7 @@ class MultiImCalibrator(BaseProcessingObj):
                 if self.count_commands[i][mode] > 0:
                     im.modes[mode] /= self.count_commands[i][mode]
             if self.im_paths[i]:
-                im.save(os.path.join(self.data_dir, self.im_paths[i]), overwrite=self.overwrite)
+                im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
         if self.full_im_path:
@@ -158,7 +158,7 @@ class MultiImCalibrator(BaseProcessingObj):
             self.outputs['out_intmat_full'].generation_time = self.current_time
             if self.full_im_path:
                 self.outputs['out_intmat_full'].save(
-                    os.path.join(self.data_dir, self.full_im_path), overwrite=self.overwrite)
+                    self.full_im_path, overwrite=self.overwrite)
 
     def setup(self):
         super().setup()
diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..487d27e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,19 +73,19 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
-                rec.save(os.path.join(self._data_dir, self.rec_path(i)), overwrite=self._overwrite)
+                rec.save(self.rec_path(i), overwrite=self._overwrite)
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-            fullrec.save(os.path.join(self._data_dir, full_rec_path), overwrite=self._overwrite)
+            fullrec.save(full_rec_path, overwrite=self._overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From 60c7513a773210438ec723590cca6d87a4296c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 46/55] fix: Demodulator ignored mode_numbers for
 one-dimensional data

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From 4dfa658a988552a474ec045477bbab5e7c688104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 47/55] fix: Shack-Hartmann sensors with equal FFT size shared
 the padding of different subapertures

---
 specula/processing_objects/sh.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..d33b81d 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -72,7 +72,7 @@ class SH(BaseProcessingObj):
 
     __zeros_cache = {}
 
-    def _zeros_common(self, shape, dtype):
+    def _zeros_common(self, shape, dtype, used_pixels=None):
         """
         Wrapper around self.xp.zeros to enable reuse cache.
         None of the arrays allocated here should be used in 
@@ -84,13 +84,16 @@ class SH(BaseProcessingObj):
             Array shape
         dtype : dtype
             Data type
+        used_pixels : int, optional
+            Number of pixels written by the caller on each side, when the others
+            must stay zero. Default is None (whole array).
             
         Returns
         -------
         array : ndarray
             Array from cache
         """
-        key = (self.target_device_idx, shape, dtype)
+        key = (self.target_device_idx, shape, dtype, used_pixels)
         if key not in self.__zeros_cache:
             self.__zeros_cache[key] = self.xp.zeros(shape, dtype=dtype)
         return self.__zeros_cache[key]
@@ -351,9 +354,11 @@ class SH(BaseProcessingObj):
         # Reuse geometry calculated in set_in_ef
         fft_size = self._fft_size
 
-        # Padded subaperture cube extracted from full pupil
+        # Padded subaperture cube extracted from full pupil. Its padding must stay zero,
+        # so it is only shared with instances writing the same number of pixels.
         self._wf3 = self._zeros_common((self._lenslet.dimy, fft_size, fft_size),
-                                       dtype=self.complex_dtype)
+                                       dtype=self.complex_dtype,
+                                       used_pixels=self._ovs_np_sub)
 
         # Focal plane result from FFT
         fp4_pixel_pitch = self.wavelength_in_nm / 1e9 / (ovs_pixel_pitch * fft_size)
-- 
2.43.0


From 6425192088f49e5c9e2dbf8f6431cd973722b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 48/55] fix: pyramid with a single linear modulation step, or
 with edge or tip defects, raised an error

---
 .../processing_objects/modulated_pyramid.py    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..5c083c0 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -404,21 +404,21 @@ class ModulatedPyramid(BaseProcessingObj):
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
             pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
             pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
@@ -488,7 +488,11 @@ class ModulatedPyramid(BaseProcessingObj):
             for rotation_idx in range(n_rotations):
                 for tt in range(self.mod_steps):
                     # Linear modulation from -mod_amp to +mod_amp
-                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    # (a single step is not modulated)
+                    if self.mod_steps == 1:
+                        tilt_value = 0.0
+                    else:
+                        tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
 
                     if self.mod_type == 'horizontal' or (self.mod_type == 'alternating' and rotation_idx == 1):
                         # Horizontal modulation uses tilt_x
-- 
2.43.0


From 53165ece8587488ed4762fb220dafe69c641f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 49/55] fix: DistributedSH lost the last rows when slices are
 uneven and crashed without device index

---
 specula/processing_objects/distributed_sh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..98e644f 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -49,15 +49,17 @@ class DistributedSH(SH):
         self.slices = []
         for i in range(n_slices):
             self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+        # The last one also gets the remaining rows
+        self.slices[-1] = slice(self.slices[-1].start, subap_on_diameter)
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
-- 
2.43.0


From d40fa0717e9ba94f17c2e9252d2bdbdd896682f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 50/55] fix: ideal derivative sensor left pixels of zero
 gradient out of the mean

---
 specula/processing_objects/ideal_derivative_sensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..e1bc563 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -201,7 +201,8 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dy_all = dy_all * subap_masks
 
         # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        # Average over the illuminated pixels, also where the phase is flat
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From df9fb9580947c8270ac5ee78c035cdc6ecee22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 51/55] fix: pyramid pupils were smaller than pup_diam when the
 pupil distance requires a finer FFT grid

---
 specula/processing_objects/modulated_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 5c083c0..14004ee 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -341,7 +341,9 @@ class ModulatedPyramid(BaseProcessingObj):
         fft_res = internal_ccd_side / float(pup_diam)
         fft_res_min = (pup_dist + pup_diam) / pup_diam * 1.1
         if fft_res < fft_res_min:
-            fft_res = fft_res_min
+            # Keep the pupils pup_diam pixels wide
+            internal_ccd_side = int(self.xp.ceil(fft_res_min * pup_diam / 2) * 2)
+            fft_res = internal_ccd_side / float(pup_diam)
 
         result = calc_geometry(
             DpupPix,
-- 
2.43.0


From ae564ea687b952271dea4a49c84fd4bd02b86c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 52/55] fix: keep the running mean of the pseudo open loop
 spectrum in GainOptimizer

---
 specula/processing_objects/gain_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..e2398d8 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -259,6 +259,7 @@ class GainOptimizer(BaseProcessingObj):
         if self.running_mean and self.psd_ol is not None:
             if self.psd_ol.shape[1] > mode:
                 psd_pseudo_ol = (psd_pseudo_ol + self.psd_ol[:, mode]) / 2.0
+                self.psd_ol[:, mode] = psd_pseudo_ol
 
         # t_intst different gain values
         gains = self.xp.linspace(gmax/self.ngains, gmax, self.ngains)
-- 
2.43.0


From 9cabf4ffc9ad544d1161bd19b06d3b5e7fa31b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 53/55] fix: identity noise covariance of the MMSE
 reconstructor has the size of the slopes

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..ad7019c 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -76,7 +76,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
 
@@ -96,7 +96,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[0], dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From 024b3b372986fa7f368faa7e9c3853520837a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 54/55] fix: masks have no dtype attribute: AnnularMask without
 centre and as_masked_array

---
 specula/lib/mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mask.py b/specula/lib/mask.py
index a292ac5..fcd13b6 100644
--- a/specula/lib/mask.py
+++ b/specula/lib/mask.py
@@ -32,7 +32,7 @@ class BaseMask():
         return self._mask
     
     def as_masked_array(self, xp=xp):
-        return xp.ma.array(xp.ones(self._shape, dtype=self.dtype),
+        return xp.ma.array(xp.ones(self._shape),
                            mask=self.mask())
         
     def shape(self):
@@ -363,7 +363,7 @@ class AnnularMask(CircularMask):
             self._maskRadius = min(self._shape) / 2.
         if self._maskCenter is None:
             self._maskCenter = 0.5 * xp.array([self._shape[0],
-                                               self._shape[1]], dtype=self.dtype)
+                                               self._shape[1]])
 
         r = self._maskRadius
         cc = self._maskCenter
-- 
2.43.0


From 542aa7749b4be333fee726c73d4420f92c303b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 55/55] fix: J and K bands of the MAORY-1 flux model

---
 specula/lib/n_phot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index da3f901..f6303a2 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -184,7 +184,7 @@ def n_phot(
         # MAORY-1 model never uses Na.
 
         useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6 and model != 'MAORY-1'
-        if useNa:
+        if useNa or 'Na' not in mymodel.band_tab:
             values = mymodel.lambda_tab
         else:
             values = mymodel.lambda_tab[0:-1]
@@ -256,7 +256,7 @@ class DefaultModel():
 class Maory1Model():
     '''based on E-SPE-ESO-276-0206 issue 1 and MAORY Tech Notes 19 Dec 2007'''
 
-    band_tab = ['V', 'R', 'I', ' J', 'H', 'K']
+    band_tab = ['V', 'R', 'I', 'J', 'H', 'K']
     lambda_tab = [0.54, 0.65, 0.80, 1.25, 1.65, 2.20]  # 1e-6
     width_tab = [.090, .130, .200, .300, .350, .400]  # 1e-6
     e0_tab = [368., 177., 119., 28.6, 10.8, 3.79]  # 1e-10
-- 
2.43.0

