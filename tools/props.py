"""Single source of the property list: writes /verif/properties.jsonl."""
import json, pathlib

T = "src/wam2layers/tracking/"
P = "src/wam2layers/preprocessing/"
U = "src/wam2layers/utils/"
W = "src/wam2layers/"

def p(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    assert len(title) <= 80, (id, len(title))
    return d

PROPS = [
# ------------------------------------------------------------------ tracking numerics
p("T01", "Horizontal transport is exact donor-cell upwind transport",
  "For every field and every pair of staggered face fluxes, the horizontal transport tendency of each grid cell equals inflow minus outflow over its four faces, where each face carries the flux times the value of the cell the flux comes from. Faces on the edge of the grid carry nothing, except that with periodic boundaries the west and east edge columns exchange through their shared face. The call never modifies its inputs and returns a field of the same shape.",
  ["inputs"], "all grid sizes (>=3x3), all real-valued fields, all signs and magnitudes of the face fluxes, both boundary modes",
  "The unit test checks one 5x5 field with a single non-zero cell; the regression runs compare to stored output of one case within a tolerance.",
  [T+"core.py"], [("horizontal_advection", T+"core.py"), ("pad_x_wrap / pad_y_zero / pad_xy_zero", T+"core.py")]),
p("T02", "Horizontal transport conserves moisture over the whole grid",
  "Whatever the fields and fluxes, the horizontal transport tendencies summed over all cells of the grid are exactly zero: transport moves moisture between cells but creates or destroys none. This holds for closed edges and, when both edge columns of the face fluxes hold the flux of their one shared face, for periodic boundaries, for grids of any size.",
  ["inputs"], "all grid sizes, all fields, all face fluxes, both boundary modes; induction over the grid",
  "Needs a sum over arbitrarily many cells for arbitrary data; no test sums the tendency.",
  [T+"core.py"], [("horizontal_advection", T+"core.py")]),
p("T03", "Face fluxes are the mean of the two adjacent cell-centre fluxes",
  "Each flux on a cell face used for tracking is the arithmetic mean of the two cell-centre fluxes on either side of that face, for interior rows and columns. With periodic boundaries the west-edge and east-edge face of a row are the same face and carry the same mean of the first and last column, and the results have exactly the shapes the transport step expects.",
  ["inputs"], "all grid sizes and all flux fields, both boundary modes",
  "The tests use one or two fixed small arrays; a wrong seam or a shifted row only shows on other data.",
  [U+"grid.py"], [("stagger_x", U+"grid.py"), ("stagger_y", U+"grid.py")]),
p("T04", "Grid-cell areas and side lengths follow the spherical geometry of the grid",
  "For every regular latitude-longitude grid the area of a cell is the area of the spherical zone segment it covers (clipped at the poles), its north-south side follows from the latitude spacing, and its east-west side from the longitude spacing times the mean cosine of its two bounding parallels. This holds for grids with different spacing in the two directions, for any order of latitudes, and for regions that cross the date line.",
  ["inputs"], "all regular grids: any spacings, extents, row order, and a longitude wrap at any column",
  "The tests contain only square grids that never cross the date line inside the region.",
  [U+"grid.py"], [("get_grid_info", U+"grid.py")]),
p("T05", "The flux limiter never lets a step move more moisture than it may",
  "After limiting, the eastward and northward moisture transports out of a cell during one timestep together never exceed half of the moisture stored in that layer of the cell, for every input. Limiting never reverses or amplifies a flux, leaves fluxes within their share untouched, maps zero flux to zero, and never produces missing values where storage is positive.",
  ["inputs"], "all flux and storage fields with positive storage (including zero fluxes), all timesteps, all grids",
  "Only end-to-end runs exercise it, on one data set; zero-flux cells and strongly limited cells are not isolated.",
  [T+"core.py"], [("stabilize_fluxes", T+"core.py")]),
p("T06", "The vertical flux closes both layer balances proportionally and is bounded",
  "The vertical flux between the two layers is the one for which the unexplained residual of each layer's moisture balance is proportional to that layer's new storage, unless its magnitude times the timestep would exceed the smaller mean layer storage divided by one plus the vertical mixing factor, in which case it is cut to exactly that bound with its sign kept. The layer balance contains storage change, horizontal divergence, precipitation in proportion to layer storage and evaporation from the surface.",
  ["inputs"], "all storages (positive), fluxes, precipitation, evaporation, timesteps, mixing factors and grids",
  "There is one doctest-like example with all fluxes zero; the closure is an identity over all inputs.",
  [T+"core.py"], [("calculate_fz", T+"core.py"), ("divergence", T+"core.py")]),
p("T07", "Vertical exchange only moves tracked moisture between the layers",
  "Vertical transport takes from the layer the flux comes from, in proportion to that layer's tracked fraction; the mixing term acts along the difference in tracked fraction and vanishes when fractions are equal or the mixing factor is zero. In a tracking step whatever the vertical terms add to one layer of a cell they remove from the other, so the column total is independent of the vertical flux and of the mixing factor until limits act.",
  ["inputs"], "all vertical fluxes, tracked fractions and mixing factors, both tracking directions",
  "Nothing tests the exchange in isolation.",
  [T+"core.py", T+"forwardtrack.py", T+"backtrack.py"], [("vertical_advection / vertical_dispersion", T+"core.py"), ("forwardtrack", T+"forwardtrack.py"), ("backtrack", T+"backtrack.py")]),
p("T08", "A forward step applies the forward budget and loses no moisture unrecorded",
  "In each forward step and cell, tracked storage after the step plus recorded losses minus recorded gains equals tracked storage before plus horizontal transport plus tagged evaporation minus tracked precipitation, all for that step. Tagged evaporation is the tagging weight times evaporation; tracked precipitation is the precipitation split by layer storage times the tracked fraction; transport uses the forward-directed face fluxes and the storages at the start of the step.",
  ["inputs"], "all states, fluxes, masks in [0,1], timesteps, mixing factors, grids >=3x3, both boundary modes",
  "Regression tests compare aggregated output of one or two cases with stored numbers; no test checks the budget per cell.",
  [T+"forwardtrack.py", T+"core.py", U+"grid.py"], [("forwardtrack", T+"forwardtrack.py")]),
p("T09", "A backward step applies the reversed budget and loses no moisture unrecorded",
  "In each backward step and cell, tracked storage after the step plus recorded losses minus recorded gains equals tracked storage before plus time-reversed horizontal transport plus tagged precipitation minus tracked evaporation, all for that step. Tagged precipitation is the tagging weight times precipitation split over the layers by storage; tracked evaporation is evaporation times the tracked fraction of the lower layer; transport uses reversed face fluxes and the storages at the end of the interval.",
  ["inputs"], "all states, fluxes, masks in [0,1], timesteps, mixing factors, grids >=3x3, both boundary modes",
  "As for the forward step: only aggregated regression numbers are compared.",
  [T+"backtrack.py", T+"core.py", U+"grid.py"], [("backtrack", T+"backtrack.py")]),
p("T10", "Tracked storage always stays between zero and the physical storage",
  "After every tracking step in either direction, each layer of each cell holds at least zero and at most its physical moisture storage at the time the step ends at, whatever the inputs. Edge cells (all four edges, or only the first and last row with periodic boundaries) hold none, and recorded gains and losses of a step are never negative.",
  ["inputs", "histories"], "all finite inputs with positive storage; preserved by every step, hence for whole runs of any length",
  "Invariant over arbitrary inputs and arbitrarily many steps; tests never assert it.",
  [T+"forwardtrack.py", T+"backtrack.py", U+"grid.py"], [("forwardtrack", T+"forwardtrack.py"), ("backtrack", T+"backtrack.py"), ("get_boundary", U+"grid.py")]),
p("T11", "Tracked precipitation and evaporation never exceed the physical ones",
  "In every step the tracked precipitation (forward) or tracked evaporation (backward) of a cell is at least zero and at most the physical precipitation or evaporation of that step, given admissible states. The tagged amount is exactly the tagging weight times the physical amount, and the accumulated output fields grow by exactly these amounts per step.",
  ["inputs"], "all admissible states, fluxes, masks, timesteps; both directions",
  "No test compares tracked with physical fluxes.",
  [T+"forwardtrack.py", T+"backtrack.py"], [("forwardtrack", T+"forwardtrack.py"), ("backtrack", T+"backtrack.py")]),
p("T12", "On a periodic domain nothing depends on where the longitude axis starts",
  "With periodic boundaries, rotating all input fields by any number of columns rotates the face fluxes, the horizontal transport, the vertical flux and the outcome of a whole step by the same number of columns and changes nothing else. In particular the seam between the last and first column is treated like any other pair of neighbours.",
  ["inputs"], "all rotations, grid widths and input fields",
  "No test runs a periodic domain at all.",
  [T+"core.py", U+"grid.py", T+"forwardtrack.py", T+"backtrack.py"], [("horizontal_advection", T+"core.py"), ("stagger_x / stagger_y", U+"grid.py"), ("divergence / calculate_fz", T+"core.py")]),
# ------------------------------------------------------------------ orchestration
p("R01", "A run covers its tracking window in contiguous steps, each exactly once",
  "A tracking run processes consecutive intervals of one timestep each, starting at the start (forward) or the end (backward) of the tracking window, never leaving the window and leaving at most a remainder shorter than one timestep. Each step uses the states at both ends of its own interval and the fluxes at its middle, converted to amounts per cell side, limited with the state the step starts from, and none of this alters the loaded data for later steps.",
  ["configurations", "histories"], "all windows, timesteps, calendars and numbers of steps, both directions",
  "Tests run one window per direction with timesteps that divide it; the loop contract is over all of them.",
  [T+"forwardtrack.py", T+"backtrack.py", T+"shared.py"], [("run_experiment", T+"forwardtrack.py"), ("run_experiment", T+"backtrack.py"), ("initialize_time", T+"shared.py")]),
p("R02", "Moisture is tagged exactly during the tagging window and only in the region",
  "A step tags moisture if and only if the time it starts from lies in the tagging window, both ends included; outside the window nothing is tagged. A static region is used unchanged in every tagged step, and a time-dependent region is read at the time nearest to the start of the step.",
  ["configurations", "histories"], "all window placements relative to the tracking window, static and time-dependent regions, both directions",
  "Test configurations contain one tagging window each; boundary instants and dynamic regions are not varied.",
  [T+"forwardtrack.py", T+"backtrack.py", T+"io.py"], [("run_experiment", T+"forwardtrack.py"), ("run_experiment", T+"backtrack.py"), ("load_tagging_region", T+"io.py")]),
p("R03", "Every accumulated amount is written to exactly one output file",
  "Output is written at every output time reached and after the last step, and the accumulated fields are reset right after each write while the stored state is kept, so the sum of each accumulated field over all files equals its sum over all steps. Nothing is written at other times, and after a run no accumulated amount is left unwritten.",
  ["configurations", "histories"], "all output frequencies, timesteps and windows, both directions",
  "Tests inspect one output file of runs shorter than two output intervals.",
  [T+"forwardtrack.py", T+"backtrack.py", T+"io.py"], [("run_experiment", T+"forwardtrack.py"), ("run_experiment", T+"backtrack.py"), ("write_output", T+"io.py")]),
p("R04", "Continuing from a restart file equals running without interruption",
  "A run started with the restart option continues from the tracked storages in the output file whose timestamp is its own starting instant, and starts all accumulated fields at zero. Stopping at an output time and continuing yields the same later outputs as one uninterrupted run, up to the single precision in which states are stored.",
  ["histories", "configurations"], "all split points at output times, both directions",
  "No test uses the restart option (the configuration text itself says it needs testing).",
  [T+"forwardtrack.py", T+"backtrack.py", T+"io.py"], [("initialize", T+"forwardtrack.py"), ("initialize", T+"backtrack.py"), ("output_path", T+"io.py")]),
p("R05", "The reported moisture budget adds up to 100 percent whenever it closes",
  "The progress report accounts for area-weighted totals since the start of the run, across output resets: tracked, still in the atmosphere, boundary transport, losses and gains, each as a share of the tagged total. Boundary transport is the part of the losses on the grid edge and the rest is interior, and the reported closure is 100 percent exactly when tagged plus gained moisture equals tracked plus stored plus lost plus exported moisture.",
  ["histories"], "all sequences of steps and resets, all fields and grids, both directions and boundary modes",
  "Log lines are not tested at all.",
  [U+"profiling.py"], [("ProgressTracker", U+"profiling.py")]),
# ------------------------------------------------------------------ io
p("I01", "Data between two input times are linearly interpolated in time",
  "Data requested at an input time are exactly the stored fields of that time; at any other time they are the linear interpolation, by elapsed time, between the stored fields at the surrounding input times. Fields are taken from the file of the day each input time belongs to, also across midnight.",
  ["inputs", "configurations"], "all times, input frequencies, calendars and fields",
  "Tests use input at the requested times or compare one regression case.",
  [T+"io.py", U+"calendar.py"], [("load_data / load_slice", T+"io.py"), ("round_cftime", U+"calendar.py")]),
p("I02", "Whatever a caller does to loaded data, later loads are unaffected",
  "Loading data for the same time, variables and region any number of times always returns the same values, independent of what callers did in place to earlier results and of what was loaded in between. Different times, variable groups, regions or input folders never return each other's data.",
  ["histories"], "all sequences of loads and in-place modifications",
  "Requires arbitrary interleavings of loads and mutations; tests load once.",
  [T+"io.py"], [("load_slice / _load_slice_with_cache", T+"io.py")]),
p("I03", "A tracking domain selects exactly the grid cells inside its bounding box",
  "Restricting data to a bounding box (west and east different) keeps exactly the cells whose centre lies within the box, edges included, with their original values and latitude order. When the box crosses the date line the kept columns form one contiguous run ordered from its western to its eastern side.",
  ["inputs"], "all regular grids, all boxes (also crossing the date line, also with edges on grid points)",
  "Tests select a few boxes on one small grid.",
  [T+"io.py"], [("select_subdomain", T+"io.py")]),
p("I04", "A tagging box covers exactly the grid cells inside it",
  "For a tagging region given as a box the weight is one for exactly those cells whose centre lies inside the box, edges included, and zero elsewhere. A box whose west exceeds its east covers everything from its west eastward across the date line to its east.",
  ["inputs"], "all grids and all boxes",
  "Only one box is used in tests.",
  [T+"shared.py"], [("initialize_tagging_region", T+"shared.py")]),
p("I05", "A shapefile tagging region gives each cell its covered area fraction",
  "For a tagging region given as a polygon the weight of every grid cell equals the fraction of that cell (in longitude-latitude coordinates) covered by the polygon, and hence lies between zero and one; cells not touched have weight zero. The result is on the grid of the data in its own orientation, whatever order the coordinates have.",
  ["inputs"], "all polygons and regular grids, increasing or decreasing latitudes",
  "One shapefile on one grid is compared with a stored mask.",
  [U+"shapefile_mask.py"], [("create_mask", U+"shapefile_mask.py")]),
p("I06", "Output files are uniquely named and carry the interval they cover",
  "The name of an output file is determined by the output folder, the tracking direction and the instant it is written for, and two different instants a minute or more apart never share a name. The file holds that instant, the bounds of the interval its amounts were accumulated over with the instant as one bound, the grid bounds of every cell, and every output field unchanged up to single precision.",
  ["configurations", "inputs"], "all instants, frequencies, calendars, directions and fields",
  "Tests read one output file and look at two variables.",
  [T+"io.py", P+"utils.py"], [("output_path / write_output / add_time_bounds", T+"io.py"), ("add_bounds", P+"utils.py")]),
# ------------------------------------------------------------------ preprocessing
p("P01", "Lower and upper layer together hold the whole column, each level exactly once",
  "For every timestamp the two layers' moisture, eastward and northward fluxes each add up to the vertical integral over all valid levels of humidity times pressure thickness over gravity (times wind for fluxes); each level counts in exactly one layer. With model levels the lower layer consists of the levels numbered above the boundary level, with pressure levels of the levels at or below the boundary pressure.",
  ["inputs", "configurations"], "all profiles, level counts and boundary settings, both level types",
  "Regression tests compare with stored output of one case within a tolerance.",
  [P+"shared.py"], [("preprocess", P+"shared.py")]),
p("P02", "With total column water available the layers add up to exactly that amount",
  "When the input contains total column water, the two layers' moisture sums to exactly that amount in every cell, and moisture and fluxes of every level are scaled by the same factor; without it no scaling is applied.",
  ["inputs"], "all profiles and column water fields with non-zero column vapour",
  "Tests compare one case with stored numbers.",
  [P+"shared.py"], [("preprocess", P+"shared.py")]),
p("P03", "Precipitation and evaporation are never negative and keep their balance",
  "For every input field the preprocessed precipitation and evaporation are both non-negative. Dew (evaporation of the downward sign) is moved to precipitation, so that precipitation minus evaporation equals the net downward surface flux of the input, negative input precipitation counting as none, for each data source and its own sign convention.",
  ["inputs"], "all precipitation and evaporation fields, all three data sources",
  "ERA5 is only compared with stored numbers, the other two sources are not tested.",
  [P+"era5.py", P+"arco.py", P+"cmip.py"], [("preprocess_precip_and_evap", P+"era5.py"), ("get_input_data", P+"arco.py"), ("get_input_data", P+"cmip.py")]),
p("P04", "Model-level layer thicknesses partition the whole atmosphere",
  "For every selection of model levels in increasing order, the pressure thicknesses are non-negative (for surface pressures of at least 310 hPa, below which the table itself is not monotone) and add up to exactly the surface pressure, so no air is left out or counted twice. The edge between two consecutive selected levels lies at the mean of their full-level coefficients.",
  ["inputs", "configurations"], "all increasing level selections and all surface pressures",
  "One fixed level list is tested.",
  [P+"era5.py"], [("get_dp_modellevels / get_edges / load_era5_ab", P+"era5.py"), ("midpoints", P+"utils.py")]),
p("P05", "Pressure-level columns are completed to the surface without counting air twice",
  "For every column the profile is extended with top of atmosphere, surface and layer-boundary points, sorted by pressure, and the thicknesses of the air above the boundary and between boundary and surface add up to exactly the boundary pressure and the surface pressure minus it. Humidity and wind at the boundary are linear interpolations of the profile in pressure, and levels below the surface contribute nothing.",
  ["inputs"], "all profiles, surface pressures (levels below ground included) and boundary settings",
  "One data set is compared with stored numbers.",
  [P+"pressure_levels.py", P+"utils.py"], [("extend_pressurelevels / interp_dp_midpoints / mask_below_surface_data", P+"pressure_levels.py"), ("interpolate / sortby_ndarray", P+"utils.py")]),
p("P06", "Preprocessed grids run from -180 to 180 degrees and keep data with its place",
  "Longitudes in preprocessed files lie between -180 and 180 degrees in increasing order and every value stays attached to the same physical place; data already in that range are unchanged. Latitudes come out in decreasing order, and the bounds of each cell lie half a grid spacing to either side of its centre.",
  ["inputs"], "all regular global or regional grids, all fields",
  "Only one regional grid is tested.",
  [P+"shared.py", P+"utils.py", P+"cmip.py"], [("shift_longitude", P+"shared.py"), ("add_bounds", P+"utils.py")]),
p("P07", "Each requested timestamp is preprocessed exactly once, into the file of its day",
  "Preprocessing produces one file per calendar day containing exactly one record for each requested timestamp of that day in increasing order, and every record holds the fields of its own timestamp. The result is the same whether days are processed one after another or in parallel.",
  ["configurations", "histories"], "all periods, input frequencies and calendars",
  "Tests preprocess one day.",
  [P+"shared.py", P+"xarray_append.py"], [("get_input_dates / group_timestamps_by_day / preprocess / prep_experiment", P+"shared.py"), ("append_to_netcdf", P+"xarray_append.py")]),
p("P08", "Incomplete or invalid input data are always rejected",
  "Input is accepted only if it has the required dimensions, every variable required for its level type is present with exactly the dimensions it must have, and no variable contains missing values. Every other input is rejected with an error before anything is computed from it, and no valid input is rejected.",
  ["inputs"], "all subsets of missing variables, wrong dimensions and missing values, both level types",
  "Tests do not exercise rejection.",
  [P+"input_validation.py", P+"shared.py"], [("validate_input / validate_dims / validate_vars / check_nans", P+"input_validation.py")]),
p("P09", "Unit conversions are exact for every frequency and value",
  "Accumulated water depths in metres become fluxes in kg per square metre and second by multiplying with the density of water and dividing by the length of the input interval in seconds. Specific humidity follows from dew point and pressure by the documented formula, is zero-free positive and increases with dew point at fixed pressure.",
  ["inputs", "configurations"], "all values, frequencies and admissible temperatures and pressures",
  "Only exercised through one regression case with hourly data.",
  [P+"utils.py"], [("accumulation_to_flux / calculate_humidity", P+"utils.py")]),
p("P10", "Three-hourly climate-model fluxes are averaged in pairs onto six-hourly times",
  "Every six-hourly value is the mean of the two three-hourly values whose intervals make up the six hours ending at its label, so the time-integrated amount is preserved; data not starting at the expected time are rejected. The input is not modified.",
  ["inputs"], "all series of even length and all values",
  "There are no tests for climate-model input.",
  [P+"cmip.py"], [("resample_3hr_var / assert_correct_starttime", P+"cmip.py")]),
# ------------------------------------------------------------------ config, cli, download
p("C01", "An accepted configuration is always consistent",
  "Any configuration that is accepted, initially or after changing a setting, has tracking, tagging and preprocessing start dates not after their end dates, boxes with south below north and all corners within the allowed ranges, and dates on its own calendar. Configurations violating this are rejected, and consistent ones are accepted.",
  ["configurations"], "all date triples, boxes and calendars, creation and later assignment",
  "Tests reject two hand-picked bad configurations.",
  [W+"config.py"], [("Config / validate_region / check_date_order / convert_dates", W+"config.py")]),
p("C02", "Exporting a configuration and reading it back changes nothing",
  "Writing any accepted configuration to text or to a file and reading it back yields an equal configuration, including all dates to the second, boxes, frequencies and paths.",
  ["configurations"], "all accepted configurations",
  "One configuration with whole-minute dates is tested.",
  [W+"config.py"], [("to_string / to_file / from_yaml", W+"config.py")]),
p("C03", "Dates are read and rounded exactly, on every supported calendar",
  "A date text is read as exactly that date and time on the configured calendar, to the second, for every supported calendar. Rounding down or up to a frequency gives the nearest multiple of that frequency not after or not before the given time, and leaves multiples unchanged.",
  ["inputs", "configurations"], "all dates, frequencies and calendars",
  "Tests use a handful of dates on the standard calendar.",
  [U+"calendar.py"], [("cftime_from_iso / subclass_cftime / round_cftime / cftime_from_timestamp", U+"calendar.py")]),
p("C04", "Old frequency names are translated without changing their meaning",
  "Every deprecated frequency name, with any number in front and in any letter case, is translated to its modern equivalent with the same number; every other text is returned unchanged. Translating twice is the same as translating once.",
  ["inputs"], "all strings",
  "Tests list a few examples.",
  [U+"calendar.py"], [("fix_deprecated_frequency", U+"calendar.py")]),
p("C05", "Each command runs exactly the job it names, in the configured direction",
  "The track command runs a backward experiment exactly when the configuration says backward and a forward experiment otherwise, each preprocess command uses its own data source, and each is run once with the given configuration file. The configuration file is copied to the folder the results go to, and the removed commands always fail with an explanation.",
  ["configurations"], "all commands and configurations",
  "Tests run the functions behind the commands directly and only some commands.",
  [W+"cli.py"], [("track / era5 / cmip / arco_era5 / visualize commands", W+"cli.py")]),
p("C06", "Downloading an example never overwrites existing files",
  "A download creates a new folder of the given name and fails without touching anything if that name exists; every listed file ends up in that folder under its own name. Identifiers are split into provider prefix and suffix exactly, and identifiers of unsupported providers or malformed ones are refused before anything is created.",
  ["inputs", "fault_sequences"], "all identifiers, names and file listings",
  "The network tests cannot run everywhere and check one identifier.",
  [W+"download.py"], [("parse_doi / create_target_directory / download / download_from_doi", W+"download.py")]),
p("C07", "Folder settings always become absolute existing folders",
  "After a configuration is accepted every local folder setting is an absolute path with a leading tilde resolved to the user's home folder, and the folder exists; remote addresses are left as they are. Region files are made absolute too, so the working directory no longer matters afterwards.",
  ["configurations"], "all relative, absolute, tilde and remote values",
  "Tests only use absolute temporary folders.",
  [W+"config.py"], [("_expanduser / _make_dir / validate_region", W+"config.py")]),
p("C08", "Input data checks warn exactly when the stated condition is violated",
  "Each data check issues a warning if and only if the data violate the condition it names: monotonicity, sign, range, units, shape, uniform spacing and coordinates. Checks never fail on valid data and never modify them.",
  ["inputs"], "all fields and coordinates",
  "The checks are not tested.",
  [W+"analysis/checks.py"], [("check_* functions", W+"analysis/checks.py")]),
]

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
    out.write_text("".join(json.dumps(x) + "\n" for x in PROPS))
    print(len(PROPS), "properties")
