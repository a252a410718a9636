From 07071c06f7247ecc3a7747131937813704b8070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 01/26] fix: keep zero fluxes zero in stabilize_fluxes

fillna returns a new array; its result was discarded, so a cell without any
horizontal flux got NaN fluxes (0/0), which spread into the tracked storages.
---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From 554603d5e857e09bc00236b43e622de8777c3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 02/26] fix: use the latitude spacing for the latitude extent
 of grid cells

get_grid_info used the longitude spacing to find the bounding parallels, giving
wrong areas and side lengths on grids with different spacings.
---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From 144a588f2e75defa517e54e1a66609457aae86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 03/26] fix: longitude spacing of domains with the date line
 after the first column

get_grid_info took the jump from 180 to -180 degrees for the grid spacing.
---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..3b3821d 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360 - dx_deg)  # in case of a jump at the date line
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From 424c4abf52854e45affb04980250185fb7e4d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 04/26] fix: restart from an output file

Output files have a time dimension of length one, which the restart fields do
not have; every restart failed with a shape mismatch.
---
 src/wam2layers/tracking/backtrack.py    | 2 +-
 src/wam2layers/tracking/forwardtrack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..15fd043 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -138,7 +138,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_end_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..61393cb 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -141,7 +141,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_start_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
-- 
2.43.0


From bf0e6655e4a0da92dc09d3d34dfb39bf8903fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 05/26] fix: include the edges of a tracking domain that
 crosses the date line

All other boxes include cells whose centre lies on the edge.
---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..69c7ea0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -56,10 +56,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From fd00262ccbd66e425bd2b326e4d4fdc4846c69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 06/26] fix: add dew to precipitation in CMIP preprocessing

---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From 5d25658252a5762b184f07ef0639cde5d2d7fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 07/26] fix: write preprocessed data with decreasing latitudes

---
 src/wam2layers/preprocessing/shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..4ef7c62 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -216,6 +216,7 @@ def preprocess(
         )
 
         ds = shift_longitude(ds)
+        ds = ds.sortby("latitude", ascending=False)  # e.g. CMIP is south to north
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From 3c2dfaf01ca77b7453fced6171b1be140ed6849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 08/26] fix: keep the seconds of dates when exporting a
 configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..36f7999 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From 3c11660520814b76b7eaf8ff4e253ef6a9f776f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 09/26] fix: expand ~ in folder settings

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 36f7999..469ce64 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From 03b871bafbffb2e090b298c288bcf3bb5998b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 10/26] fix: subtract gains in the tagging closure

---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 4ed84d14e3001e77fa521579e0c60030c611d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 11/26] fix: take the divergence across the seam of periodic
 domains

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 15 ++++++++++-----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 15fd043..407ae78 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -194,7 +194,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..d90ac48 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,16 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
     # Note: latitude decreasing, hence negative fy gradient is divergence
-    return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+    else:
+        dfx = np.gradient(fx, axis=-1)
+    return dfx - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +186,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the first and last column are neighbours
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +231,10 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x) + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x) + F.precip.values * s_rel.s_lower - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 61393cb..92a0c41 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -202,7 +202,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From d914a1009ca64c6b58fdb96909dbafb453a3fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 12/26] fix: time bounds of outputs that cover less than the
 output frequency

---
 src/wam2layers/tracking/io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 69c7ea0..2dfef3c 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -156,12 +156,18 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
 
 
 def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
-    """Compute the time bounds and add them to the output dataset."""
+    """Compute the time bounds and add them to the output dataset.
+
+    The first and last output of a run can cover less than the output frequency.
+    """
     dt = pd.Timedelta(config.output_frequency)
     if config.tracking_direction == "forward":
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
+        previous = round_cftime(t, config.output_frequency, "ceil") - dt
+        previous = max(previous, config.tracking_start_date)
     else:
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
+        previous = round_cftime(t, config.output_frequency, "floor") + dt
+        previous = min(previous, config.tracking_end_date)
+    ds["time_bnds"] = (("time", "bnds"), np.array(((previous, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
-- 
2.43.0


From 0c9a5fd2f018edc5ce594fa486bc24728b936c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 13/26] fix: support using all model levels

---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/era5.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 469ce64..e7f6de1 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['all', 'All']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..7fc80b2 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if isinstance(era5_modellevels, str):  # "all"
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -180,6 +180,8 @@ def get_edges(era5_modellevels):
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
+    if isinstance(levels, str):  # "all"
+        levels = np.arange(1, len(a))
 
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
-- 
2.43.0


From f4b04ad69c75d2d39fdd0d510067c4f1c57f61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 14/26] fix: conditions and messages of the input data checks

---
 src/wam2layers/analysis/checks.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..c90bcdc 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -80,19 +80,23 @@ def check_frequency(data, frequency):
 
 def check_shape(data, ndim):
     if data.ndim != ndim:
-        warnings.warn("Expected 3 dimensions, found {data.ndim} for {data.name}.")
+        warnings.warn(
+            f"Expected {ndim} dimensions, found {data.ndim} for {data.name}."
+        )
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(
+            f"Data for {data.name} is not within the range {range[0]} to {range[1]}."
+        )
 
 
 def check_uniform(coord):
     spacing = np.diff(coord)
     if not spacing.min() == spacing.max():
         warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
+            f"Coordinate spacing is not uniform for coordinate {coord.name}."
         )
 
 
-- 
2.43.0


From 4327cef5b28518fd009b089d7ecc126cdae22e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 15/26] fix: keep all dates on the configured calendar

Changing the calendar, or passing cftime dates of another calendar, left
dates on a different calendar than the configured one.
---
 src/wam2layers/config.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index e7f6de1..1cc1841 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -564,6 +564,14 @@ class Config(BaseModel):
 
     @model_validator(mode="after")
     def check_date_order(self):
+        # Dates may have been given on another calendar, or the calendar changed.
+        date_type = type(cftime_from_iso("2000-01-01T00:00", self.calendar))
+        for name in type(self).model_fields:
+            date = getattr(self, name)
+            if name.endswith("_date") and not isinstance(date, date_type):
+                text = date.strftime("%Y-%m-%dT%H:%M:%S")
+                self.__dict__[name] = cftime_from_iso(text, self.calendar)
+
         if self.tracking_start_date > self.tracking_end_date:
             raise ValueError(
                 "tracking_end_date should be later than tracking_start_date"
-- 
2.43.0


From c927944ce36fc2699f021e0ad8d4b4d727ca75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 16/26] fix: leave the configuration unchanged when a changed
 setting is rejected

The date order is checked after assignment, so a rejected date stayed in the
configuration.
---
 src/wam2layers/config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 1cc1841..75aacc8 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -503,6 +503,15 @@ class Config(BaseModel):
 
     """
 
+    def __setattr__(self, name, value):
+        """Change a setting; if the change is rejected, keep the configuration as it was."""
+        previous = dict(self.__dict__)
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            self.__dict__.update(previous)
+            raise
+
     @classmethod
     def from_yaml(cls, config_file):
         """Read settings from a configuration.yaml file.
-- 
2.43.0


From bb8fe10ea5f4b792840244974e9a68f9cf7cd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 17/26] fix: keep longitudes that already are between -180 and
 180 degrees

A column at 180 degrees was moved to -180 if the grid had western longitudes,
and unsorted longitudes between 0 and 180 degrees stayed unsorted.
---
 src/wam2layers/preprocessing/shared.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 4ef7c62..0da68e6 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -276,9 +276,8 @@ def parallel_preprocess(
 def shift_longitude(ds: xr.Dataset) -> xr.Dataset:
     """Return dataset with longitude shifted to ISO 6709 standard."""
     if (ds["longitude"].to_numpy() > 180).any() or (
-        ds["longitude"].to_numpy() < 0
+        ds["longitude"].to_numpy() < -180
     ).any():
         logger.info("Shifting longitude values to a range of -180 to 180 degrees.")
         ds.coords["longitude"] = (ds.coords["longitude"] + 180) % 360 - 180
-        return ds.sortby(ds.longitude)
-    return ds
+    return ds.sortby("longitude")
-- 
2.43.0


From 2a5d6946390b3716af9932d83e7039434f6fdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 18/26] fix: write configuration files that yaml reads back
 unchanged

The JSON escapes of characters outside the basic plane are read by yaml as two
separate characters.
---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 75aacc8..d2f2c39 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -606,7 +606,7 @@ class Config(BaseModel):
         """
         fpath = Path(fname)
         with fpath.open("w") as f:
-            f.write(self.to_string())
+            yaml.safe_dump(json.loads(self.to_string()), f, sort_keys=False)
 
     def to_string(self: "Config"):
         """Pydantic can't serialize the dates. We convert these to string manually."""
-- 
2.43.0


From 4223795edc88f822af46632ae2933b6a6b38fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 19/26] fix: input data checks on dimensions with a single
 entry or without coordinate

---
 src/wam2layers/analysis/checks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index c90bcdc..d687aaa 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -20,7 +20,7 @@ warnings.formatwarning = _warning_on_one_line
 
 def check_monotonic_increase(data, dim="level"):
     """Check if data is monotonically increasing in the given dimension."""
-    if not data.diff(dim).min() >= 0:
+    if data.sizes[dim] > 1 and not data.diff(dim).min() >= 0:
         warnings.warn(
             f"Data is not monotonically increasing in the dimension {dim} for {data.name}."
         )
@@ -28,7 +28,7 @@ def check_monotonic_increase(data, dim="level"):
 
 def check_monotonic_decrease(data, dim="level"):
     """Check if data is monotonically decreasing in the given dimension."""
-    if not data.diff(dim).max() <= 0:
+    if data.sizes[dim] > 1 and not data.diff(dim).max() <= 0:
         warnings.warn(
             f"Data is not monotonically decreasing in the dimension {dim} for {data.name}."
         )
@@ -94,7 +94,7 @@ def check_range(data, range):
 
 def check_uniform(coord):
     spacing = np.diff(coord)
-    if not spacing.min() == spacing.max():
+    if spacing.size > 0 and not spacing.min() == spacing.max():
         warnings.warn(
             f"Coordinate spacing is not uniform for coordinate {coord.name}."
         )
@@ -105,8 +105,8 @@ def check_coords(data, coords):
     for coord in coords:
         if coord not in data.coords:
             warnings.warn(f"Data for {data.name} does not have a coordinate {coord}.")
-        else:
-            check_uniform(data[coord])
+            continue
+        check_uniform(data[coord])
         if coord == "latitude":
             check_monotonic_decrease(data[coord], dim=coord)
         else:
-- 
2.43.0


From ab1e5a96dbbe581530565824a1ab5d96265edec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 20/26] fix: read only prefixes that start with 10. from
 identifiers

---
 src/wam2layers/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..1e4dee7 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -31,7 +31,7 @@ def parse_doi(doi_string):
     For more info, see
     https://www.crossref.org/documentation/member-setup/constructing-your-dois/
     """
-    regex = r"(?P<prefix>10.\d{4,9})\/(?P<suffix>[-._;()\/:A-Z0-9]+$)"
+    regex = r"(?<!\d)(?P<prefix>10\.\d{4,9})\/(?P<suffix>[-._;()\/:A-Z0-9]+$)"
     matches = re.search(regex, doi_string, re.IGNORECASE)
 
     if matches:
-- 
2.43.0


From 1a8040100190f1070d85da553db35e6973180820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 21/26] fix: keep downloaded files inside the target directory

---
 src/wam2layers/download.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index 1e4dee7..4aaecef 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -65,6 +65,8 @@ def download(url, destination, local_filename=None):
     if local_filename is None:
         local_filename = url.split("/")[-1]
 
+    if Path(local_filename).name != local_filename:
+        raise ValueError(f"Refusing to write {local_filename} outside {destination}.")
     local_path = destination / local_filename
 
     logging.info(f"Downloading {local_filename}")
-- 
2.43.0


From 81abbb6803782105cc73883b30eadeef04d1589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 22/26] fix: run with a configuration file that already is in
 the output folder

---
 src/wam2layers/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..eee9f15 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,7 +63,9 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
-    shutil.copy(yaml_path, target_path)
+    target = Path(target_path) / Path(yaml_path).name
+    if not (target.exists() and target.samefile(yaml_path)):
+        shutil.copy(yaml_path, target)
 
 
 def get_wam_version():
-- 
2.43.0


From 3d73f394ec3b8d9eb1afd0e549e69425079a4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 23/26] fix: explain removed commands also when they are called
 with arguments

---
 src/wam2layers/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index eee9f15..d6528eb 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -77,6 +77,10 @@ def get_wam_version():
     )
 
 
+# Removed commands explain themselves, whatever arguments they are called with
+REMOVED_COMMAND = {"allow_extra_args": True, "ignore_unknown_options": True}
+
+
 @click.group()
 @click.pass_context
 @click.version_option(message=get_wam_version())
@@ -113,7 +117,7 @@ def track(ctx, config_file):
         run_forwardtrack_experiment(config_file)
 
 
-@cli.command(hidden=True)
+@cli.command(hidden=True, context_settings=REMOVED_COMMAND)
 def backtrack():
     msg = (
         "The `backtrack` and `forwardtrack` commands have been removed in favor of "
@@ -127,7 +131,7 @@ def backtrack():
     raise ValueError(msg)
 
 
-@cli.command(hidden=True)
+@cli.command(hidden=True, context_settings=REMOVED_COMMAND)
 def forwardtrack():
     msg = (
         "The `backtrack` and `forwardtrack` commands have been removed in favor of "
-- 
2.43.0


From 92df983dc48de8961daa393d9efa6eb84f1caa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 24/26] fix: order domains that cross the date line from west
 to east

---
 src/wam2layers/tracking/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 2dfef3c..6897b56 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -54,10 +54,9 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         )
     else:
         # Need to roll coordinates to maintain a continuous longitude
-        # Roll the first lon that's NOT in the bbox to the front of the array
-        # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
-        n_roll = in_bbox.argmin().item()  # first false value
+        # Roll the first lon at or east of the western edge to the front of the array
+        # That way, all values that ARE in the bbox, run from west to east.
+        n_roll = (ds.longitude >= west).argmax().item()  # first true value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
         in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
-- 
2.43.0


From d1411861222a4902f30d0c7d242b6721af31604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 25/26] fix: grid bounds of narrow domains that cross the date
 line

The longitude resolution was the median difference between neighbouring
columns. With two or three columns across the date line the jump of 360
degrees enters the median and the bounds of all cells are wrong.
---
 src/wam2layers/preprocessing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index 50b6bb6..ab30734 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -206,7 +206,8 @@ def add_bounds(ds: xr.Dataset) -> None:
     lats = ds["latitude"].to_numpy()
     lons = ds["longitude"].to_numpy()
     res_lat = np.median((np.diff(lats)))  # infer resolution
-    res_lon = np.median((np.diff(lons)))
+    # eastward distances, also across the date line and around the globe
+    res_lon = np.min(np.diff(lons, append=lons[0]) % 360)
 
     ds["latitude_bnds"] = (
         ("latitude", "bnds"),
-- 
2.43.0


From d055a447fc1b0edd9bf53bfc0fd2795a484db679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 26/26] fix: grid bounds for longitudes that decrease or close
 the circle

The spacing inferred from eastward distances was one turn minus the
spacing for decreasing longitudes and zero when the first column is
repeated 360 degrees further east. Use distances along the circle.
---
 src/wam2layers/preprocessing/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index ab30734..0d85bbb 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -206,8 +206,9 @@ def add_bounds(ds: xr.Dataset) -> None:
     lats = ds["latitude"].to_numpy()
     lons = ds["longitude"].to_numpy()
     res_lat = np.median((np.diff(lats)))  # infer resolution
-    # eastward distances, also across the date line and around the globe
-    res_lon = np.min(np.diff(lons, append=lons[0]) % 360)
+    # distances along the circle of latitude, also across the date line
+    steps = np.abs((np.diff(lons) + 180) % 360 - 180)
+    res_lon = np.min(steps) if steps.size else np.nan
 
     ds["latitude_bnds"] = (
         ("latitude", "bnds"),
-- 
2.43.0

