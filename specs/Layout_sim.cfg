SPECIFICATION Spec
CONSTANTS
  Formats = {"u1", "i1", "u2", "i2", "i2be", "i4", "i8", "f4", "f4be", "f8", "f8be"}
  Layouts = {"C", "F", "strided", "reversed", "window", "broadcast", "readonly", "subclass"}
  Fields = {"small", "limit", "symmetric"}
  Ops = {"state", "state_run", "state_falwa", "from_wind", "from_vorticity", "add_wind", "add_vorticity", "laplace", "poisson", "diffusion", "gradient", "vorticity", "divergence", "wind", "derivative2", "derivative4", "derivative_profile", "filter_zonal", "filter_meridional", "filter_profile", "mean", "mean_zonal", "mean_meridional", "mean_region", "quad", "quad_boxcount", "quad_meridional", "zonalize", "zonalize_boxcount", "levels", "falwa", "falwa_boxcount", "falwa_levels", "fawa", "envelope", "wavenumber", "by_wavenumber", "by_wavenumber_of", "by_both", "ks", "region", "interpolate", "window_zonal", "window_meridional", "orography", "relaxation", "background", "profile_u", "profile_pv", "dataset"}
  NArrays = 3
  Depth = 9
  Sampling = TRUE
INVARIANTS TypeOK Sound ValuesOnly NoWrite Emit
CHECK_DEADLOCK FALSE
