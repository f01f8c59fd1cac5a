SPECIFICATION Spec
CONSTANTS
  Elements <- QuickElements
  Starts = {"pv", "jet"}
  Models = {"plain", "mountain"}
  Attributes = {"pv", "avo", "vorticity", "u", "v", "streamfunction", "energy", "enstrophy", "eddy_enstrophy", "pv_flux", "falwa", "falwa_filtered", "falwa_boxcount", "envelope", "wind", "pv_zonalized", "fawa", "ks2", "wavenumber", "waveguides"}
  Operations = {"laplace", "poisson", "poisson_add", "diffuse", "derivative2", "derivative4", "gradient", "hann_zonal", "boxcar_meridional", "window_meridional", "window_zonal", "by_wavenumber", "envelope_of", "times_u", "times_v", "times_pv", "zonal_mean", "meridional_mean", "mean", "region_mean", "region", "quad", "quad_meridional", "quad_domain", "zonalize", "roundtrip_spectral", "as_vorticity", "as_pv", "plus_vorticity", "curl", "divergence", "recombine", "first", "as_wind", "plus_wind", "derivative_profile", "smooth_profile", "as_field", "as_u_profile", "as_pv_profile", "interpolate"}
  Depth = 3
INVARIANTS Equivariant Laws Emit
CHECK_DEADLOCK FALSE
