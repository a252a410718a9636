"""Which properties are claimed: id -> (level, level_note)."""
P = ("All obligations discharged for all inputs and extents over exact reals. Trusts the numpy/xarray operation models, "
     "the PyVC normal forms and case splitter, z3 and cvc5; floating-point rounding is not modelled. ")
B = "Bounded: the contracts are evaluated on the real code; nothing is counted as proved. "
CLAIMS = {
    "T01": ("proof", P),
    "T02": ("proof", P + "Conservation is the induction lemma over the face transports of T01."),
    "T03": ("proof", P),
    "T04": ("proof", P + "sin, cos and pi enter through bounds and congruence only."),
    "T05": ("proof", P),
    "T06": ("proof", P + "Proved in the form of known finding T06-area (see DESIGN.md)."),
    "T07": ("proof", P),
    "T08": ("proof", P),
    "T09": ("proof", P),
    "T10": ("proof", P + "Histories: the bounds are an invariant of one step from any state that satisfies them."),
    "T11": ("proof", P),
    "T12": ("proof", P + "Rotation by one column; any rotation is an iterate."),
    "R01": ("proof", P + "Loop contract: one arbitrary iteration from any invariant state; exit by the loop condition."),
    "R02": ("proof", P),
    "R03": ("proof", P + "The sum over files is the induction over write and reset of one arbitrary iteration of the run loop."),
    "R04": ("proof", P + "Single precision of stored states is not modelled: writing and reading a file is the identity."),
    "R05": ("proof", P + "Rounding of the printed percentages is excluded (shown to within half a unit of the last digit)."),
    "I01": ("proof", P),
    "I02": ("proof", P + "Sequences of calls: two calls with arbitrary interference in between are proved; longer histories are explored on the real code."),
    "I04": ("proof", P),
    "I06": ("proof", P + "Single precision of stored fields is not modelled."),
    "C01": ("proof", P + "Creation with, and one change to, any dates and boxes, through the validators as pydantic dispatches them (pyvc/pydmodel.py, an assumed contract on pydantic); histories of several changes and dates given on other calendars are explored."),
    "C02": ("exploration", B + "Seeded random configurations, texts with quotes, unicode and white space, all calendars."),
    "C03": ("proof", P + "Reading of any whole-second (or whole-minute) instant from its text and rounding of any such instant to any frequency, all calendars; cftime's parsing and ordinals and CFTimeIndex.floor/ceil are assumed contracts. Seeded random dates on 9 calendars are explored against an independent calendar in addition."),
    "C04": ("proof", P + "All printable ASCII texts, as strings of z3's sequence theory; re is interpreted by translating CPython's own parse of the patterns. All short texts are explored in addition."),
    "I03": ("proof", P + "select_subdomain is proved for all grids with increasing longitudes and decreasing latitudes; reading from files is explored."),
    "I05": ("exploration", B + "Seeded random polygons (holes, parts, grid edges) and grids against exact polygon clipping."),
    "C05": ("exploration", B + "Command line runs in scratch folders with the physics replaced by stand-ins; removed commands with random arguments."),
    "C06": ("exploration", B + "Splitting and refusal of identifiers and the choice of provider are proved for all printable texts; the files and folders are explored with random identifiers and a recorded-answer web stand-in with hostile file names."),
    "C08": ("proof", P + "Every check_* function for fields, coordinates and units of any content and size; complete input data with one arbitrary variable (its values, its units) or one arbitrary coordinate. Several faults at once are explored."),
    "P01": ("proof", P + "Model levels and pressure levels proved."),
    "P02": ("proof", P + "Model levels and pressure levels proved."),
    "P03": ("proof", P),
    "P04": ("proof", P + "Any table of coefficients and any increasing selection; the table of the repository is shown to meet the preconditions."),
    "P05": ("proof", P + "Columns of any length with the level dimension in any place; levels given as integers (a recorded finding) only in bounded cases."),
    "P06": ("proof", P + "Bounds, latitude order and shifting of longitudes proved."),
    "P07": ("proof", P + "Dispatch, placement and appending of one arbitrary timestamp of a run; netCDF files and the process pool are models; whole runs through real files are explored."),
    "P08": ("proof", P + "Every defect of every single variable, two simultaneous absent or wrongly dimensioned variables, and missing values anywhere; more simultaneous defects are explored."),
    "P09": ("proof", P + "exp enters through positivity and monotonicity only."),
    "P10": ("proof", P),
    "C07": ("exploration", B + "Seeded random folder settings: relative, absolute, tilde, remote."),
}
NOT_APPLICABLE = {}
