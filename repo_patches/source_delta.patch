From 10a4fb374e898bd1dae504a563194f2c20a55351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 01/39] fix: save schedule of BarotropicModel.run is relative
 to the start time

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..dc2e8ad 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,7 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        t_save = state_init.time + save_every if save_every > 0 else None
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From ebf4c55e7bfded8b6330c668d78dddff227ef093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 02/39] fix: BarotropicModel.run always returns a StateList

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index dc2e8ad..a134c28 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From 1bd1a0f3c254ba0e99ac17f7ce254f60a56104d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 03/39] fix: NameError in Grid.vorticity_divergence

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From 71b40090ffb49eed561410111ec801f5783ed72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 04/39] fix: grids that compare equal have the same hash

---
 src/barotropic/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..3399c86 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -92,7 +92,9 @@ class Grid:
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # rsphere and omega are compared approximately in __eq__, so they must
+        # not contribute here: equal grids must have the same hash
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From 6f5961315f6fa7db7d37f0eaa38b931a5fae32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 05/39] fix: comparing a Grid with another type of object does
 not raise

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 3399c86..f597c01 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -84,6 +84,8 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
+        if not isinstance(other, Grid):
+            return NotImplemented
         return (
             self.shape == other.shape
             and np.isclose(self.rsphere, other.rsphere)
-- 
2.43.0


From 155254d7472b6b2286cd4cbc94a86177580a533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 06/39] fix: Grid.equivalent_latitude accepts a single number

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f597c01..73f5f08 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -595,8 +595,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From e432ffcfac9c8bc4054f28aab44e10c7166ceafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 07/39] fix: dominant_wavenumber_fourier offset by the lower
 wavenumber bound

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..0287cfd 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 13011c57b9d7f5b1a12571a9418ce19f6ecabb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 08/39] fix: scipy.signal.hann is not available in current
 versions of scipy

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0287cfd..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 654093b7182790b9c0978756b3198cbeb751ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 09/39] fix: global mean in solution of Poisson-like equations
 with op_add

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 73f5f08..ca3e76a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -384,6 +384,9 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The global mean is undetermined (set to 0) unless there is an op_add
+        if op_add != 0.:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From 787a4f14ce2ef96563af537a21eb9e10b8c66cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 10/39] fix: NaN boundary of waveguides next to an infinite
 stationary wavenumber

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..0a7b2be 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From c05bb30ce2472be053eb3952b106f048bd89965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 11/39] fix: wind vectors in summary plot follow center_lon

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From 9f9b21c11389af43b15fe1404ad361c8727e1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 12/39] fix: roll_lon finds the closest longitude across the
 periodic boundary

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 0d4b076..8b471c7 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,7 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    new_mid = np.argmin(np.abs((lon - center + 180) % 360 - 180))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 40eab12b231216ce168ac30c37c4cf6c9b4fd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 13/39] fix: ticks of waveguides plot always include 0

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 8b471c7..19609e6 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -375,7 +375,7 @@ def waveguides(state, k_waveguides=None, hemisphere="both", klim_bounds=(-5, 15)
     xmin = np.ceil(xmin)
     xmax = np.ceil(xmax)
     step = np.ceil((xmax - xmin) / 10)
-    xmin += xmin % step # guarantee that 0 is ticked
+    xmin += -xmin % step # guarantee that 0 is ticked
     ax2.set_xticks(np.arange(xmin, xmax, step))
     # Style y-axes as latitude and add a vertical line at 0
     for ax in (ax1, ax2):
-- 
2.43.0


From e62a2773e6e6d762df574b1391c938907c0ac835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 14/39] fix: infinite recursion when copying or unpickling a
 StateList

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..6a43d1f 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -462,6 +462,10 @@ class StateList(collections.abc.Sequence):
         # from the invocation on every State in the StateList. Separate
         # attributes and methods by checking if the (unbound) method exists on
         # the State class.
+        # Special methods are never broadcast, _states does not exist yet if
+        # lookup happens before initialization (e.g. when copied or unpickled).
+        if name == "_states" or (name.startswith("__") and name.endswith("__")):
+            raise AttributeError(name)
         attr = getattr(State, name, None)
         if callable(attr):
             return functools.partial(self.map, attr)
-- 
2.43.0


From e7ecc98c69fe704db1774da432e5d2349475d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 15/39] fix: State.time from numeric time coordinate of a
 dataset is a number

---
 src/barotropic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..d92543d 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -333,7 +333,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # back to fill value
         time = time_fill
         if var_map["time"] in field.coords:
-            time = field.coords[var_map["time"]].values
+            # Unpack zero-dimensional array
+            time = np.asarray(field.coords[var_map["time"]].values)[()]
             # Convert numpy datetime type into a regular datetime instance
             if isinstance(time, np.datetime64):
                 # https://stackoverflow.com/questions/13703720/, but
-- 
2.43.0


From 8c0c6c507c5150cf24182a031efa717c279903c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 16/39] fix: grid of imported dataset matches size of
 coordinates with limited precision

---
 src/barotropic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index d92543d..b14cbb8 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -285,7 +285,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-    grid = Grid(resolution=dlon, **grid_kwargs)
+    grid = Grid(resolution=360./lon.size, **grid_kwargs)
 
     # Consider multiple options to construct states:
     # States from horizontal wind components
-- 
2.43.0


From f5f6d12f0c8e937b577ae03185172863cdd08daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 17/39] fix: number of gridpoints for resolutions affected by
 floating point rounding

---
 src/barotropic/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index ca3e76a..a2dfdc2 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,9 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        # Tolerate rounding errors of a resolution that is not representable.
+        self.nlon = int(360. / resolution + 1.e-9)
+        self.nlat = int(180. / resolution + 1.e-9) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From f43d259ab189b1ee5eb1c518a8ba522a05f8b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 18/39] fix: import datasets that have dimensions without
 (unique) coordinate values

---
 src/barotropic/io.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index b14cbb8..0461b71 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -295,19 +295,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, idx):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field
+            v = ds[var_map["v"]].isel(idx).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da, idx: State.from_vorticity(grid, t, da.values)
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da, idx: State(grid, t, pv=da.values)
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -320,15 +320,18 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    # Select by position, because dimensions do not have to have a coordinate
+    # and the values of a coordinate do not have to be unique
+    dims_ranges = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_ranges is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
+    for selection in itertools.product(*dims_ranges):
         # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+        idx = dict(zip(dims_flatten, selection))
+        field = data.isel(idx)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -343,7 +346,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, idx))
 
     return StateList(states)
 
-- 
2.43.0


From 23f8454d26fd16b1f6a7174a8a238083c89c22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 19/39] fix: repr of empty grid regions

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..5c5d7cd 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # Empty selections do not have bounds
+    lat = region.lat[[-1,0]] if region.lat.size > 0 else (np.nan, np.nan)
+    lon = region.lon[[0,-1]] if region.lon.size > 0 else (np.nan, np.nan)
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*lat, region.shape[0]),
+        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*lon, region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0


From 60f68268ce7d68be82916bb716021273c8a496fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 20/39] =?UTF-8?q?fix:=20GaussianMountain=20is=20not=20cut?=
 =?UTF-8?q?=20off=20at=20the=200=C2=B0=20meridian?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/rhs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..711cd7d 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -210,9 +210,11 @@ class GaussianMountain(Orography):
         self._stdev_lat_sq = stdev[1] ** 2
 
     def orography(self, grid):
+        # Zonal distance to the center has to be periodic
+        dlon = (grid.lon2 - self._center_lon + 180.) % 360. - 180.
         return (self._height
                 # Decaying in zonal direction
-                * ( np.exp(-0.5 * (grid.lon2 - self._center_lon)**2 / self._stdev_lon_sq) )
+                * ( np.exp(-0.5 * dlon**2 / self._stdev_lon_sq) )
                 # Decaying in meridional direction
                 * ( np.exp(-0.5 * (grid.lat2 - self._center_lat)**2 / self._stdev_lat_sq) ))
 
-- 
2.43.0


From c024eee1e0920da63ac403cce0f7a702b20245c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 21/39] fix: region bounds are inclusive for coordinates
 affected by floating point rounding

---
 src/barotropic/grid.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index a2dfdc2..5fc1258 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -7,6 +7,10 @@ import spharm
 from . import formatting
 from .constants import EARTH_RADIUS, EARTH_OMEGA, MERIDIONAL
 
+# Tolerance (in degrees) for rounding errors of the coordinate values, so the
+# bounds of a region selection are inclusive on every grid
+_ATOL_COORD = 1.e-9
+
 
 class Grid:
     """Regular lon-lat grid and operations for a spherical planet.
@@ -830,11 +834,12 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lat <= hi]
+            return indices[self._grid.lat <= hi + _ATOL_COORD]
         elif hi is None:
-            return indices[lo <= self._grid.lat]
+            return indices[lo - _ATOL_COORD <= self._grid.lat]
         else:
-            return indices[(min(lo, hi) <= self._grid.lat) & (self._grid.lat <= max(lo, hi))]
+            lo, hi = min(lo, hi), max(lo, hi)
+            return indices[(lo - _ATOL_COORD <= self._grid.lat) & (self._grid.lat <= hi + _ATOL_COORD)]
 
     def _get_lon_indices(self, slc):
         # Single-value selection still returns full array but value is checked
@@ -860,14 +865,14 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lon <= hi]
+            return indices[self._grid.lon <= hi + _ATOL_COORD]
         elif hi is None:
-            return indices[lo <= self._grid.lon]
+            return indices[lo - _ATOL_COORD <= self._grid.lon]
         elif hi < lo:
-            lo_mask = lo <= self._grid.lon
-            return np.roll(indices[(self._grid.lon <= hi) | lo_mask], np.count_nonzero(lo_mask))
+            lo_mask = lo - _ATOL_COORD <= self._grid.lon
+            return np.roll(indices[(self._grid.lon <= hi + _ATOL_COORD) | lo_mask], np.count_nonzero(lo_mask))
         else:
-            return indices[(lo <= self._grid.lon) & (self._grid.lon <= hi)]
+            return indices[(lo - _ATOL_COORD <= self._grid.lon) & (self._grid.lon <= hi + _ATOL_COORD)]
 
 
 
-- 
2.43.0


From 1b73c8523b4313ae59b09630642a7d634a2a70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 22/39] fix: range of single precision exceeded by diffusion of
 order 4 and higher

---
 src/barotropic/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 5fc1258..eff2761 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -419,8 +419,11 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Evaluate in double precision: for higher orders, the coefficient and
+        # the powers of the eigenvalues exceed the range of single precision
+        eigenvalues_op = self._laplacian_eigenvalues.real.astype(float) ** order
+        damping = 1. / (1. + dt * coeff * eigenvalues_op)
+        return field_spectral * damping.astype(np.float32)
 
     # Area-weighted operators
 
-- 
2.43.0


From fd1321631bdb4431998b96193ce92598441f7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 23/39] fix: State.add_wind ignored the wind of the state if
 given a tuple

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 6a43d1f..874703a 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From 7fa5887b8497a805b754ff3516e4d5e61307eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 24/39] fix: interpolate orography given on latitudes from
 south to north

---
 src/barotropic/rhs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 711cd7d..5c69c21 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -158,8 +158,9 @@ class Orography(RHS):
             Orography in m.
         """
         # Interpolate given orography to grid. Because np.interp requires
-        # increasing x-values, flip sign of lat which range from +90° to -90°.
-        lat_interp = lambda x: np.interp(-grid.lat, -self._lat, x)
+        # increasing x-values, sort the latitudes of the given orography.
+        order = np.argsort(self._lat)
+        lat_interp = lambda x: np.interp(grid.lat, self._lat[order], x[order])
         lon_interp = lambda x: np.interp( grid.lon,  self._lon, x)
         # 2D linear interpolation
         orog = np.apply_along_axis(lat_interp, 0, self._orography)
-- 
2.43.0


From 1867bfde5346f14711967876a9a7067c5710380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 25/39] fix: refuse arrays as latitude selection with an
 IndexError

The elementwise comparison with "N" and "S" raised a ValueError before the
selection was checked.
---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index eff2761..434293f 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -816,9 +816,9 @@ class GridRegionIndexer:
                 raise IndexError(f"latitude {slc} is not on the grid")
             return idx
         # Allow special values N and S to select hemispheres
-        if slc == "N":
+        if isinstance(slc, str) and slc == "N":
             slc = slice(0, 90)
-        if slc == "S":
+        if isinstance(slc, str) and slc == "S":
             slc = slice(-90, 0)
         # Selection must be a numeric slice without a step parameter
         if not isinstance(slc, slice):
-- 
2.43.0


From afdae35b51c446e2c68eae9f26596cd357358b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 26/39] fix: interpolation of data given at the poles

The poles occurred twice in the coordinates of the interpolation function,
resulting in NaN (2D) or in other than the given pole values (1D), e.g. for the
wave activity if the lowest contour is the minimum of the field.
---
 src/barotropic/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 434293f..201697f 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -698,6 +698,11 @@ class Grid:
         assert len(pole_values) == 2
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
+        # The pole values replace data at the poles, if there are any (repeated
+        # coordinates there would result in NaNs)
+        lat = np.asarray(lat)
+        inner = np.abs(lat) < 90.
+        lat, field = lat[inner], field[inner]
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
         y = np.pad(field, pad_width=pad, mode="constant", constant_values=pole_values)
         return scipy.interpolate.interp1d(x, y, axis=axis, kind=kind, copy=False)
-- 
2.43.0


From 2400dbbbe335fe639ef289502d391383357cce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 27/39] fix: profile of zonalize not monotonic for contours in
 descending order

Contours that enclose the same area were interpolated in the order in which
they were given and contours outside of the range of the field exceeded the
extreme values of the field.
---
 src/barotropic/grid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 201697f..cfaf158 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -672,7 +672,13 @@ class Grid:
         # latitudes and return the latitudes as well for reference
         if not interpolate:
             return q, y
-        # When interpolated, only return the contour values
+        # When interpolated, only return the contour values. Contours that are
+        # not reached are at the poles with the extreme values of the field.
+        # Contours at the same latitude must be in ascending order northward
+        # for a monotonic profile.
+        order = np.argsort(q)
+        q = np.clip(q, q_min, q_max)[order]
+        y = y[order]
         return self.interpolate_meridional(q, y, pole_values=(q_max, q_min))
 
     # Interpolation
-- 
2.43.0


From 06bd2979013379e1bc2e42c406d387c6a0bf5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 28/39] fix: stationary wavenumber of a wind profile next to
 the poles

The vorticity at the poles was set to 0 in the PV derived from the wind, so the
PV gradient had the wrong sign at the neighboring latitudes even for a
solid-body rotation.
---
 src/barotropic/diagnostics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0a7b2be..072743a 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -288,6 +288,10 @@ def stationary_wavenumber(u_or_state, grid=None, order=4, min_u=0.001, kind="com
     # If no PV field is given, calculate zonal-mean PV from zonal-mean u
     if pv is None:
         rv = - grid.derivative_meridional(u * np.cos(grid.phi), order=order) / grid.rsphere / np.cos(grid.phi)
+        # The formula is singular at the poles, where the vorticity is that of
+        # a solid body rotating with the angular velocity of the next latitude
+        rv[ 0] =  2. * u[ 1] / np.cos(grid.phi[ 1]) / grid.rsphere
+        rv[-1] = -2. * u[-2] / np.cos(grid.phi[-2]) / grid.rsphere
         pv = grid.fcor + rv
     # If PV is a 2D field, calculate zonal mean
     elif pv.ndim != 1:
-- 
2.43.0


From 3217aa353e5dfcd118c0597e3e8eb14bcfd48e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 29/39] fix: pole values truncated in the interpolation of
 integer fields

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index cfaf158..361ebbc 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -709,6 +709,8 @@ class Grid:
         lat = np.asarray(lat)
         inner = np.abs(lat) < 90.
         lat, field = lat[inner], field[inner]
+        # Pole values of integer fields are not restricted to integers
+        field = field.astype(np.result_type(field, *pole_values))
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
         y = np.pad(field, pad_width=pad, mode="constant", constant_values=pole_values)
         return scipy.interpolate.interp1d(x, y, axis=axis, kind=kind, copy=False)
-- 
2.43.0


From 2877650f41e5498c256ca70fa462d94d08836a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 30/39] fix: output of the filters truncated for integer fields

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 361ebbc..c1976ad 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -762,6 +762,8 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Integer fields would result in truncated output
+        field = field.astype(np.result_type(field, window))
         # Use symmetrical boundary condition
         if field.ndim == 1:
             assert field.size == self.nlat
@@ -790,6 +792,8 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Integer fields would result in truncated output
+        field = field.astype(np.result_type(field, window))
         # Use periodic boundary condition (only makes sense if 
         if field.ndim == 1:
             assert field.size == self.nlon
-- 
2.43.0


From 1b5b93e037c559e27bf91310dd7f08b96235f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 31/39] fix: as_dataset with an iterator without states

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 0461b71..97de9e6 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From 5f9b9f3e41d5ff2d22e3e30ee276438b81b7faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 32/39] fix: as_dataset with a concat_dim named like a method
 of StateList

---
 src/barotropic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 97de9e6..596ff97 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -88,7 +88,8 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     # Attach non-time index coordinate if specified
     if concat_dim != "time":
         try:
-            values = getattr(states, concat_dim)
+            # Access the attribute of the states, StateList has own attributes
+            values = states.map(lambda state: getattr(state, concat_dim))
         except AttributeError:
             values = np.arange(len(states))
         coords[concat_dim] = values
-- 
2.43.0


From ee1876eadea5b623d39d28b1a7f575966d4183c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 33/39] fix: microseconds of imported times far from 1970

---
 src/barotropic/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 596ff97..fae48f5 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -341,11 +341,10 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
             time = np.asarray(field.coords[var_map["time"]].values)[()]
             # Convert numpy datetime type into a regular datetime instance
             if isinstance(time, np.datetime64):
-                # https://stackoverflow.com/questions/13703720/, but
-                # utcfromtimestamp is deprecated, start with UTC and drop the
-                # timezone info for now
-                timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
-                time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+                # Avoid floating point timestamps, whose precision is not
+                # sufficient for times far from 1970
+                elapsed = (time - np.datetime64(0, "s")).astype("timedelta64[us]")
+                time = dt.datetime(1970, 1, 1) + elapsed.item()
         # Create State and add to collection
         states.append(as_state(time, field, idx))
 
-- 
2.43.0


From f132ec1dec6e56bba7cec1e3024d13d9032376b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 34/39] fix: refuse datasets with longitudes that do not start
 at 0

---
 src/barotropic/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index fae48f5..3d96ccd 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -270,6 +270,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[0], 0., atol=0.01*dlon), "lon coordinate must start at 0"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
-- 
2.43.0


From c3b19447a31927278a90eda4735ed5db5ef07685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 35/39] fix: refuse datasets with latitudes that do not start
 at the north pole

---
 src/barotropic/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 3d96ccd..14aad93 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -283,6 +283,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     dlat = dlats[0]
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
+    assert np.isclose(lat[0], 90., atol=0.01*dlon), "lat coordinate must start at the north pole"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
-- 
2.43.0


From 3c75a3675f5aa045f0e0e8d7d7bf34bd089c4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 36/39] fix: accept single-precision coordinates of all
 resolutions in from_dataset

The spacing of float32 coordinates has rounding errors that exceed the default
relative tolerance of np.isclose, so e.g. a dataset on a 2.4 or 1.8 degree grid
was rejected as not regular.
---
 src/barotropic/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 14aad93..148bdb8 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -267,7 +267,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert lon.size > 0, "lon coordinate is empty"
     dlons = np.diff(lon.values)
     dlon = dlons[0]
-    assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
+    # Tolerate rounding errors of single precision coordinates in the spacing
+    assert np.isclose(dlon, dlons, rtol=1.e-3).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
     assert np.isclose(lon[0], 0., atol=0.01*dlon), "lon coordinate must start at 0"
@@ -281,10 +282,10 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert lat.size - 1 == lon.size // 2, f"grid of shape [{lat.size}, {lon.size}] is not regular"
     dlats = np.diff(lat.values)
     dlat = dlats[0]
-    assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
+    assert np.isclose(dlat, dlats, rtol=1.e-3).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
     assert np.isclose(lat[0], 90., atol=0.01*dlon), "lat coordinate must start at the north pole"
-    assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    assert np.isclose(dlat, -dlon, rtol=1.e-3), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-- 
2.43.0


From caee45e0755620464123a6b3230e33ccb6d70dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 37/39] fix: include wavenumber 1 in the wavelet analysis on
 fine grids

The largest scale of the wavelet transform was 192 gridpoints for every grid,
so wave trains of wavenumber 1 were given as 1.875 on a 1 degree grid.
---
 src/barotropic/diagnostics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 072743a..b412f3c 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -149,7 +149,9 @@ def dominant_wavenumber_wavelet(field, grid, smooth=("hann", 40, 10)):
     # Use the complex Morlet wavelet
     morlet = pywt.ContinuousWavelet("cmor1.0-1.0")
     # ... TODO: what's going on here?
-    scales = 3 * 2**np.linspace(0, 6, 120)
+    # Finer grids need larger scales (in gridpoints) to include wavenumber 1
+    octaves = max(6., np.log2(grid.shape[_ZONAL] / 2.25))
+    scales = 3 * 2**np.linspace(0, octaves, round(20 * octaves))
     # Apply the continuous wavelet transform
     coef, freqs = pywt.cwt(x, scales=scales, wavelet=morlet, axis=_ZONAL)
     # Extract the middle domain, throw away the periodic padding
-- 
2.43.0


From ffdfe970acb127b1b1ca3fb1e1f330901ba1f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 38/39] fix: derivatives, integrals and zonalization of integer
 fields overflowed

Differences of fields of small or unsigned integer types (e.g. int16 fields from
packed datasets) exceeded the range of the type, giving wrong values silently.
---
 src/barotropic/grid.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index c1976ad..2d5257d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -12,6 +12,12 @@ from .constants import EARTH_RADIUS, EARTH_OMEGA, MERIDIONAL
 _ATOL_COORD = 1.e-9
 
 
+def _float_if_integer(field):
+    # Sums and differences of integers can exceed the range of their type
+    field = np.asanyarray(field)
+    return field.astype(float) if field.dtype.kind in "biu" else field
+
+
 class Grid:
     """Regular lon-lat grid and operations for a spherical planet.
 
@@ -322,7 +328,7 @@ class Grid:
         the edges). Stencil coefficients were obtained from
         http://web.media.mit.edu/~crtaylor/calculator.html.
         """
-        f = np.asarray(f)
+        f = _float_if_integer(np.asarray(f))
         assert f.ndim <= 2
         # Output has same shape as input
         out = np.zeros_like(f)
@@ -527,6 +533,9 @@ class Grid:
         # longitude to make sectoral zonalization possible.
         assert y.ndim == 2, "input field must be 2-dimensional"
         assert y.shape[MERIDIONAL] == self.nlat, "shape mismatch in meridional dimension"
+        y = _float_if_integer(y)
+        if z is not None:
+            z = _float_if_integer(z)
         # Method: boxcounting quadrature
         if method == "boxcount":
             # Integrate everywhere or extract domain of integration from z
@@ -637,6 +646,7 @@ class Grid:
 
         Implements the zonalization procedure of Nakamura and Zhu (2010).
         """
+        field = _float_if_integer(field)
         # Select contours for area computations
         q_min = np.min(field)
         q_max = np.max(field)
-- 
2.43.0


From 889d17f4f1073615e69bd5a80599a0b127029801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 39/39] fix: filters and falwa overflowed for integer fields
 with integer windows and levels

---
 src/barotropic/diagnostics.py | 2 ++
 src/barotropic/grid.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index b412f3c..812d810 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -1,6 +1,7 @@
 import numpy as np
 import scipy.signal
 from .constants import ZONAL as _ZONAL, MERIDIONAL as _MERIDIONAL
+from .grid import _float_if_integer
 # To reduce non-optional dependencies, some required packages are imported in
 # some of these functions on demand.
 
@@ -72,6 +73,7 @@ def falwa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz")
     **interpolate** is set to `False`.
     """
     grid, pv = _get_grid_vars(["pv"], grid, pv_or_state)
+    pv = _float_if_integer(pv)
     # Compute zonalized background state of PV
     qq, yy = grid.zonalize(pv, levels=levels, interpolate=False, quad=quad)
     # Interpolate between gridpoints in case of the the boxcounting quadrature
diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 2d5257d..4ef090d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -773,6 +773,7 @@ class Grid:
         if width is not None:
             window = self.get_filter_window(window, width)
         # Integer fields would result in truncated output
+        field = _float_if_integer(field)
         field = field.astype(np.result_type(field, window))
         # Use symmetrical boundary condition
         if field.ndim == 1:
@@ -803,6 +804,7 @@ class Grid:
         if width is not None:
             window = self.get_filter_window(window, width)
         # Integer fields would result in truncated output
+        field = _float_if_integer(field)
         field = field.astype(np.result_type(field, window))
         # Use periodic boundary condition (only makes sense if 
         if field.ndim == 1:
-- 
2.43.0

