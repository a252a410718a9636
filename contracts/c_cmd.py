"""C05 (commands), C06 (downloads), C08 (input data checks) on the real code."""
from fractions import Fraction
import io, os, types, warnings
from pyvc.contract import harness
from contracts.c_conf import settings, text_models

CLI = "wam2layers.cli"


class Calls(list):
    def job(self, name, value=None):
        def run(*a, **kw):
            self.append((name, a, kw))
            return value
        return run


class Stop(Exception):
    pass


def quiet_root():
    import logging
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
        h.close()


def invoke(e, args):
    """Runs the command line interface as reloaded from source (so that it sees the patched jobs)."""
    import importlib
    from click.testing import CliRunner
    m = importlib.reload(e.mod(CLI))
    try:
        return CliRunner().invoke(m.cli, args)
    finally:
        quiet_root()


def config_file(e, **over):
    import yaml
    from pathlib import Path
    d = settings(e, **over)
    where = e.choice("config in", ("here", "below", "results", "input"))
    folder = {"here": Path.cwd(), "below": Path.cwd() / "my cases", "results": Path(d["output_folder"]), "input": Path(d["preprocessed_data_folder"])}[where]
    folder.mkdir(exist_ok=True, parents=True)
    f = folder / e.choice("config name", ("config.yaml", "floodcase 2021.yml", "a"))
    f.write_text("# a comment\n" + yaml.safe_dump(d))
    if e.int("older file", 0, 2) == 0:      # results of an earlier run, with the configuration of that run
        for k in ("output_folder", "preprocessed_data_folder"):
            old = Path(d[k]) / f.name
            if not old.exists():
                old.parent.mkdir(exist_ok=True, parents=True)
                old.write_text("# an earlier configuration\n")
    return d, f, str(f) if e.bool("absolute path") else os.path.relpath(f)


def args_of(e, *words):
    return (["--debug"] if e.int("debug", 0, 3) == 0 else []) + list(words)


def same_file(a, f):
    return os.path.abspath(str(a)) == str(f)


def given(call):
    """The configuration file a job was called with."""
    name, a, kw = call
    return (list(a) + [v for k, v in kw.items() if "config" in k or "file" in k])[0]


def copied(e, folder, f, text):
    p = os.path.join(folder, f.name)
    e.check("configuration file copied to the folder of the results", os.path.isfile(p) and open(p).read() == text)
    e.check("given configuration file unchanged", f.read_text() == text)


@harness("C05", cases=30, sym=False, bounded_reason="command line dispatch by click")
def track_command(e):
    d, f, arg = config_file(e, tracking_direction=e.choice("direction", ("forward", "backward")), calendar=e.choice("calendar", ("standard", "noleap")),
                            restart=e.bool("restart"), periodic_boundary=e.bool("periodic"))
    text, c = f.read_text(), Calls()
    e.patch("wam2layers.tracking.backtrack", run_experiment=c.job("backward"))
    e.patch("wam2layers.tracking.forwardtrack", run_experiment=c.job("forward"))
    e.patch("wam2layers.preprocessing.shared", prep_experiment=c.job("prep"))
    r = invoke(e, args_of(e, "track", arg))
    e.check(f"the command succeeds ({str(r.exception)[:100]})", r.exit_code == 0)
    e.check("one experiment in the configured direction", [x[0] for x in c] == [d["tracking_direction"]])
    if len(c) == 1:
        e.check("with the given configuration file", same_file(given(c[0]), f))
    copied(e, d["output_folder"], f, text)


@harness("C05", cases=30, sym=False, bounded_reason="command line dispatch by click")
def preprocess_commands(e):
    name, source = e.choice("command", (("era5", "era5"), ("cmip", "cmip"), ("arco-era5", "arco")))
    d, f, arg = config_file(e, level_type="pressure_levels" if e.bool("pressure levels") else "model_levels", parallel_preprocess=False)
    text, c, jobs = f.read_text(), Calls(), Calls()

    def data_of(s):
        def run(*a, **kw):
            c.append(s)
            raise Stop()
        return run
    for s in ("era5", "cmip", "arco"):
        e.patch("wam2layers.preprocessing." + s, get_input_data=data_of(s))
    shared = e.mod("wam2layers.preprocessing.shared")
    real = shared.prep_experiment

    def prep(*a, **kw):
        jobs.append(("prep", a, kw))
        return real(*a, **kw)
    e.patch("wam2layers.preprocessing.shared", prep_experiment=prep)
    for m, n in (("backtrack", "backward"), ("forwardtrack", "forward")):
        e.patch("wam2layers.tracking." + m, run_experiment=jobs.job(n))
    for m in ("wam2layers.preprocessing.shared", "wam2layers.utils.calendar"):
        if hasattr(e.mod(m), "validate_calendar_type"):
            e.patch(m, validate_calendar_type=lambda config: None)     # it reads the input data
    invoke(e, args_of(e, "preprocess", name, arg))
    e.check("reads data of its own source", c == [source])
    e.check("the job is run once", [x[0] for x in jobs] == ["prep"])
    if len(jobs) == 1:
        e.check("with the given configuration file", same_file(given(jobs[0]), f))
    copied(e, d["preprocessed_data_folder"], f, text)


@harness("C05", cases=30, sym=False, bounded_reason="command line dispatch by click")
def other_commands(e):
    c = Calls()
    for n in ("visualize_input_data", "visualize_output_data", "visualize_both"):
        e.patch("wam2layers.analysis.visualization", **{n: c.job(n)})
    e.patch("wam2layers.download", download_from_doi=c.job("download"))
    for m, n in (("backtrack", "backward"), ("forwardtrack", "forward")):
        e.patch("wam2layers.tracking." + m, run_experiment=c.job(n))
    e.patch("wam2layers.preprocessing.shared", prep_experiment=c.job("prep"))
    what = e.choice("command", ("input", "output", "both", "download", "download other", "backtrack", "forwardtrack", "missing", "invalid"))
    if what in ("input", "output", "both"):
        d, f, arg = config_file(e)
        text = f.read_text()
        r = invoke(e, args_of(e, "visualize", what, arg))
        e.check(f"the command succeeds ({str(r.exception)[:100]})", r.exit_code == 0)
        e.check("the named visualization, once", [x[0] for x in c] == ["visualize_both" if what == "both" else f"visualize_{what}_data"])
        if len(c) == 1:
            e.check("with the given configuration file", same_file(given(c[0]), f))
        copied(e, d["output_folder"], f, text)
    elif what == "download":
        from wam2layers.example_cases import AVAILABLE_CASES
        case = e.choice("case", sorted(AVAILABLE_CASES))
        r = invoke(e, args_of(e, "download", case))
        e.check("the command succeeds", r.exit_code == 0)
        e.check("the named case into a folder of its name, once",
                len(c) == 1 and c[0][0] == "download" and sorted(map(str, list(c[0][1]) + list(c[0][2].values()))) == sorted([AVAILABLE_CASES[case], case]))
    elif what == "download other":
        r = invoke(e, args_of(e, "download", e.choice("case", ("nothing", "", "10.4121/abc"))))
        e.check("unknown cases are refused", r.exit_code != 0 and not c)
    elif what in ("backtrack", "forwardtrack"):
        extra = []
        if e.bool("arguments"):
            extra = [config_file(e)[2]] + (["--help-me"] if e.bool("option") else [])
        r = invoke(e, args_of(e, what, *extra))
        said = r.output + str(r.exception)
        e.check("removed commands fail and run nothing", r.exit_code != 0 and not c)
        e.check("and explain what to use instead", "`track`" in said and "tracking_direction" in said)
    else:
        cmd = e.choice("which", (("track",), ("preprocess", "era5"), ("preprocess", "cmip"), ("preprocess", "arco-era5"), ("visualize", "input"), ("visualize", "output"), ("visualize", "both")))
        if what == "missing":
            arg = "nothing here.yaml"
        else:
            d, f, arg = config_file(e, **e.choice("invalid", (dict(timestep='often'), dict(tracking_direction="up"), dict(tracking_end_date="2019-01-01T00:00"), dict(calendar="x"))))
        r = invoke(e, args_of(e, *cmd, arg))
        e.check("nothing runs without a valid configuration", r.exit_code != 0 and not c)


# ------------------------------------------------------------------ C06
LETTERS = "abcdefXYZ0123456789-._;()/:"


def word(e, name, letters, lo, hi):
    return "".join(e.choice(f"{name}{k}", letters) for k in range(e.int(name + "#", lo, hi)))


RESOLVERS = ("", "https://doi.org/", "doi:", "http://dx.doi.org/", "see ", "https://doi.org/10.12/", "10.", "v1.", "x10.")


def doi_parts(e):
    letters = lambda pool, lo, hi: lambda rng: "".join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))
    return e.anytext("digits", letters("0123456789", 4, 9), "[0-9]{4,9}"), e.anytext("suffix", letters(LETTERS + "ghijWMN", 1, 12), "[-._;()/:A-Za-z0-9]+")


@harness("C06", cases=200, models=text_models)
def identifier_parsed(e):
    """Any prefix and any suffix, behind a resolver or not, are split exactly."""
    digits, suffix = doi_parts(e)
    raised, r = e.raises(lambda: e.fn("wam2layers.download:parse_doi")(e.choice("resolver", RESOLVERS) + "10." + digits + "/" + suffix))
    e.check("identifiers are accepted", not raised)
    if not raised:
        e.same_text("prefix exactly as given", r[0], "10." + digits)
        e.same_text("suffix exactly as given", r[1], suffix)


@harness("C06", cases=200, models=text_models)
def identifier_refused(e):
    """Any text without a valid identifier at its end is refused."""
    def draw(rng):
        parts = ["10.4121", "10.412", "10.41210000000", "/", "abc", "a b", " ", "#", "?", "10.", "4121", "x", "1"]
        return "".join(rng.choice(parts) for _ in range(rng.randint(0, 5)))
    text = e.anytext("text", draw)
    valid = e.fullmatch("(.*[^0-9])?10[.][0-9]{4,9}/[-._;()/:A-Za-z0-9]+", text)
    raised, r = e.raises(lambda: e.fn("wam2layers.download:parse_doi")(text))
    e.check("refused exactly if malformed", raised == (not valid))


def web_models():
    """Third-party modules of the downloads; the harness replaces the functions used."""
    return {**text_models(), "requests": types.SimpleNamespace(get=None), "threddsclient": types.SimpleNamespace(download_urls=None)}


@harness("C06", cases=60, models=web_models)
def provider_chosen(e):
    """For any prefix: a download is started exactly for the supported provider, everything else is refused before anything is created."""
    digits = e.anytext("digits", lambda rng: rng.choice(("4121", "5281", "41211", "4120", "0000", "412100000", "14121")), "[0-9]{4,9}")
    started = []

    def start(*a, **k):
        started.append(a)
        raise Stop()
    e.patch("wam2layers.download", create_target_directory=start)
    e.patch("requests", get=start)
    e.patch("threddsclient", download_urls=start)
    raised, ex = e.raises(lambda: e.fn("wam2layers.download:download_from_doi")(e.choice("resolver", RESOLVERS) + "10." + digits + "/abc.v1", "case"))
    supported = bool(e.fullmatch("4121", digits))
    e.check("a download is started exactly for the supported provider", (len(started) == 1) == supported)
    e.check("nothing is created or requested for others, which are refused", supported or (raised and not started))


@harness("C06", cases=300, sym=False, bounded_reason="random malformed identifiers of several kinds; any text is proved in identifier_refused")
def identifiers(e):
    """Identifiers are split exactly; malformed ones are refused."""
    parse = e.fn("wam2layers.download:parse_doi")
    how = e.int("how", 0, 6)
    prefix = "10." + word(e, "digit", "0123456789", 4, 9)
    suffix = word(e, "suffix", LETTERS, 1, 9)
    resolver = e.choice("resolver", RESOLVERS)
    if how <= 2:
        raised, r = e.raises(lambda: parse(resolver + prefix + "/" + suffix))
        e.check("prefix and suffix exactly as given", not raised and tuple(r) == (prefix, suffix))
        return
    resolver = resolver if resolver.endswith("/") else ""
    if how == 3:
        bad = "10" + e.choice("for dot", ("", "x", "/", "-", "1")) + prefix[3:] + "/" + suffix
        if "/10." in bad or bad.startswith("10."):
            return
    elif how == 4:
        bad = "10." + word(e, "few", "0123456789", 0, 3) + "/" + e.choice("rest", ("abc", "a.b", "1234"))
    elif how == 5:
        bad = prefix + e.choice("gap", ("", " ", "/", "\\", "//".replace("/", ""))) + e.choice("junk", ("", "a b", "ä", "a,b", "a?b", "#"))
    else:
        bad = e.choice("other", ("", "abc", "/", "10.", "10.4121", "11.4121/abc", "110.4121/abc", "0.4121/abc", "4121/abc", "10.4121.abc", "10.41210000000/abc"))
    raised, r = e.raises(lambda: parse(resolver + bad))
    e.check(f"malformed identifiers are refused", raised)


def tree(folder):
    out = {}
    for base, ds, fs in os.walk(folder):
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), folder)] = None
        for x in fs:
            p = os.path.join(base, x)
            out[os.path.relpath(p, folder)] = open(p, "rb").read()
    return out


class Response:
    def __init__(self, content, js=None):
        self.content, self._js, self.raw, self.status_code, self.ok = content, js, io.BytesIO(content), 200, True
        self.text, self.headers = content.decode("latin1"), {}

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def raise_for_status(self): pass
    def close(self): pass
    def json(self): return self._js

    def iter_content(self, chunk_size=1, decode_unicode=False):
        n = chunk_size or len(self.content) or 1
        for i in range(0, len(self.content), n):
            yield self.content[i:i + n]


@harness("C06", cases=80, sym=False, bounded_reason="downloads through requests and threddsclient, both replaced by records of the calls")
def downloads(e):
    """A download creates one new folder holding every listed file, or fails without touching anything."""
    from pathlib import Path
    here = Path.cwd() / "work"
    here.mkdir()
    os.chdir(here)
    uid = e.choice("id", ("f9572240-f179-4338-9e1b-82c5598529e2", "abc"))
    pre = e.choice("prefix", ("10.4121", "10.4121", "10.4121", "10.4121", "10.5281", "10.1234", "10x4121", "10.41", "10.41210"))
    doi = e.choice("resolver", ("", "https://doi.org/")) + pre + "/" + uid + e.choice("version", ("", ".v1", ".v12"))
    names = ["a.nc", "b c.nc", "config.yaml", "README", "x.tar.gz", "2021_q.nc", ".hidden", "q r.nc", "q_r.nc", " u.nc", "Ä%20b+c.nc", "A.NC", "README.txt", "fluxes-2021-07-01T00.nc"]
    k = e.int("from name", 0, 11)
    names = names[:1] + names[1:][k:] + names[1:][:k]
    evil = e.choice("evil", (None, None, None, "../up.nc", "/tmp-up.nc", "sub/x.nc", ".."))
    n1, n2 = e.int("catalogued", 0, 3), e.int("additional", 0, 3)
    urls = [f"https://opendap.4tu.nl/thredds/fileServer/x/{e.choice('dir', ('d1', '10.4121'))}/{n}" for n in names[:n1]]
    extra = [(n, f"https://data.4tu.nl/file/{uid}/{k}") for k, n in enumerate(names[3:3 + n2])]
    if evil:
        evil = str(here.parent / "abs.nc") if evil.startswith("/") else evil
        extra.append((evil, "https://data.4tu.nl/file/evil"))
    body = {u: word(e, "body" + str(k), "abc\n", 0, 5).encode() + u.encode() for k, u in enumerate(urls + [u for _, u in extra])}
    asked = []

    def get(url, *a, **kw):
        asked.append(url)
        if url in body:
            return Response(body[url])
        js = dict(files=[dict(name=n, download_url=u, size=1) for n, u in extra],
                  custom_fields=[dict(name="Other", value=["no"]), dict(name="Data Link", value=["https://opendap.4tu.nl/thredds/catalog/x/catalog.html"])])
        return Response(b"{}", js)
    e.patch("requests", get=get)
    listed = []
    e.patch("threddsclient", download_urls=lambda u, *a, **kw: listed.append(u) or list(urls))
    name = e.choice("name", ("case", "example-input", "ä b"))
    before = e.choice("before", ("nothing", "nothing", "nothing", "folder", "full folder", "file", "link"))
    if before == "folder":
        (here / name).mkdir()
    elif before == "full folder":
        (here / name).mkdir()
        (here / name / "a.nc").write_text("mine")
    elif before == "file":
        (here / name).write_text("mine")
    elif before == "link":
        (here / "elsewhere").mkdir()
        (here / name).symlink_to("elsewhere")
    (here / "other.nc").write_text("mine")
    t0 = tree(here.parent)
    raised, ex = e.raises(lambda: e.fn("wam2layers.download:download_from_doi")(doi, name))
    t1 = tree(here.parent)
    for p, c in t0.items():
        e.check("existing files and folders are never touched", p in t1 and t1[p] == c)
    if pre != "10.4121":
        e.check("other providers and malformed identifiers are refused", raised)
        e.check("before anything is created or requested", t1 == t0 and not asked)
        return
    if before != "nothing":
        e.check("an existing name is refused", raised)
        e.check("without touching anything", t1 == t0)
        return
    for p in t1:
        e.check("everything new is inside the new folder", p in t0 or p == "work/" + name or p.startswith("work/" + name + "/"))
    if evil:
        return
    e.check(f"the download succeeds ({ex if raised else ''})", not raised)
    e.check("the folder of the given name is created", "work/" + name in t1 and t1["work/" + name] is None)
    want = {u.split("/")[-1]: body[u] for u in urls}
    want.update({n: body[u] for n, u in extra})
    got = {p[len("work/" + name) + 1:]: c for p, c in t1.items() if p.startswith("work/" + name + "/")}
    e.check("it holds exactly the listed files under their own names", got == want)
    e.check("the article of the identifier is asked for", any(uid in a.split("/") for a in asked))


# ------------------------------------------------------------------ C08
CHK = "wam2layers.analysis.checks"


def warned(e, f):
    return e.warned(f)


def sample(e, name, n, kind):
    """A list of n numbers, often with the property the check looks for."""
    how = e.choice(name + ".how", ("any", "up", "down", "flat", "one off", "nonneg", "nonpos"))
    v = [e.choice(f"{name}{k}", (-3, -1, -0.25, 0, 0, 0.25, 1, 2, 5)) for k in range(n)]
    if how == "up":
        v = sorted(v)
    elif how == "down":
        v = sorted(v, reverse=True)
    elif how == "flat":
        v = [v[0]] * n
    elif how == "nonneg":
        v = [abs(x) for x in v]
    elif how == "nonpos":
        v = [-abs(x) for x in v]
    elif how == "one off":
        v = [k * 0.5 for k in range(n)]
        if n > 1:
            j = e.int(name + ".off", 0, n - 1)
            v[j] += e.choice(name + ".by", (-0.75, -0.25, 0, 0.25, 1))
        if e.bool(name + ".rev"):
            v = v[::-1]
    return [float(x) for x in v]


def unchanged(e, data, copy):
    e.check("the data are not modified", data.identical(copy))


@harness("C08", cases=250, sym=False, bounded_reason="several conditions at once; each check is proved in field_checks and monotonicity_checks", maxdim=4)
def value_checks(e):
    """Sign, range and monotonicity of values."""
    c = e.mod(CHK)
    n, m = e.dim("n"), e.dim("m")
    rows = [sample(e, f"r{k}", n, "") for k in range(m)]
    data = e.xr.DataArray(e.np.array(rows), dims=("latitude", "level"), name="x", attrs=dict(units="m"))
    if e.bool("flipped dims"):
        data = data.transpose()
    copy = data.copy(deep=True)
    flat = [x for r in rows for x in r]
    for name in ("check_positive", "check_nonnegative"):
        e.check(name + " warns exactly if a value is negative", warned(e, lambda: getattr(c, name)(data)) == (min(flat) < 0))
    e.check("check_negative warns exactly if a value is positive", warned(e, lambda: c.check_negative(data)) == (max(flat) > 0))
    up = all(r[k] <= r[k + 1] for r in rows for k in range(n - 1))
    down = all(r[k] >= r[k + 1] for r in rows for k in range(n - 1))
    e.check("check_monotonic_increase warns exactly if a value decreases", warned(e, lambda: c.check_monotonic_increase(data)) == (not up))
    e.check("check_monotonic_decrease warns exactly if a value increases", warned(e, lambda: c.check_monotonic_decrease(data, dim="level")) == (not down))
    lo = e.choice("lo", (-5, -3, -1, 0, 0.25))
    hi = e.choice("hi", (0.25, 1, 2, 5, 6))
    e.check("check_range warns exactly if a value is outside", warned(e, lambda: c.check_range(data, [lo, hi])) == (min(flat) < lo or max(flat) > hi))
    nd = e.int("nd", 0, 4)
    e.check("check_shape warns exactly if the number of dimensions differs", warned(e, lambda: c.check_shape(data, nd)) == (nd != 2))
    unchanged(e, data, copy)


def field_of(e, name="x", signs=(None, None)):
    n, m = e.dim("n"), e.dim("m")
    name += "" if signs == (None, None) else ">=0" if signs[0] == 0 else "<=0"
    some = e.bool("missing values")
    a = e.array(name + (" nan" if some else ""), [n, m], lo=signs[0], hi=signs[1], nan=some)
    if some:        # not everywhere: nothing to check otherwise
        p, q = e.int("present i", 0), e.int("present j", 0)
        e.assume((p < n) & (q < m))
        e.assume(e.not_(e.isnan(a[p, q])))
    order = ("level", "latitude") if e.bool("level first") else ("latitude", "level")
    return a, n, m, order, e.da(order, a, attrs=dict(units="m"), name="x"), some


@harness("C08", cases=200)
def field_checks(e):
    """Sign and range of values of any field."""
    c = e.mod(CHK)
    which = e.choice("which", ("check_positive", "check_nonnegative", "check_negative", "check_range", "check_shape"))
    a, n, m, order, data, missing = field_of(e, signs=(0, None) if e.bool("no negatives") else (None, 0) if e.bool("no positives") else (None, None))
    before = e.snapshot(a)
    if which == "check_shape":
        nd = e.int("nd", 0, 4)
        w = warned(e, lambda: c.check_shape(data, nd))
        e.prove("check_shape warns exactly if the number of dimensions differs", e.iff(w, nd != 2))
    else:
        lo, hi = e.real("lo", -5, 0), e.real("hi", 0, 5)
        if which == "check_range":
            w = warned(e, lambda: c.check_range(data, [lo, hi]))
            fine = lambda v: (v >= lo) & (v <= hi)
        else:
            w = warned(e, lambda: getattr(c, which)(data))
            fine = (lambda v: v <= 0) if which == "check_negative" else (lambda v: v >= 0)
        e.prove(which + " warns exactly if a value violates the condition", w != e.forall_value([n, m], lambda i, j: e.isnan(a[i, j]) | fine(a[i, j])))
    e.same("the data are not modified", data.values, before)


@harness("C08", cases=200)
def monotonicity_checks(e):
    """Values that do not decrease (increase) along a dimension, by default `level`."""
    c = e.mod(CHK)
    which = e.choice("which", ("check_monotonic_increase", "check_monotonic_decrease"))
    a, n, m, order, data, missing = field_of(e)
    before = e.snapshot(a)
    dim = e.choice("dim", (None, "level", "latitude"))
    first = order[0] == (dim or "level")
    nxt = lambda i, j: a[i + 1, j] if first else a[i, j + 1]
    if missing:         # something to compare
        p, q = e.int("compared i", 0), e.int("compared j", 0)
        e.assume((p + first < n) & (q + (not first) < m))
        e.assume(e.not_(e.isnan(a[p, q]) | e.isnan(nxt(p, q))))
    w = warned(e, lambda: getattr(c, which)(data, *([dim] if dim else [])))
    k, l = (n - 1, m) if first else (n, m - 1)
    sign = 1 if which == "check_monotonic_increase" else -1
    e.prove(which + " warns exactly if a value is out of order", w != e.forall_value([k, l], lambda i, j: e.isnan(a[i, j]) | e.isnan(nxt(i, j)) | (sign * nxt(i, j) >= sign * a[i, j])))
    e.same("the data are not modified", data.values, before)


@harness("C08", cases=200)
def spacing_check(e):
    """Uniform spacing of any coordinate: numbers or instants."""
    c = e.mod(CHK)
    n = e.dim("n")
    kind = e.choice("kind", ("numbers", "even", "instants", "even instants"))
    if kind == "instants":
        v = e.times("t", n)
        gap = lambda k: e.secs(v[k + 1]) - e.secs(v[k])
    elif kind == "even instants":
        v = e.time_axis(e.time("t0"), e.int("hours", 1, 48) * 3600, n)
        gap = lambda k: e.secs(v[k + 1]) - e.secs(v[k])
    else:
        first, step = e.real("first", -100, 100), e.real("step", -2, 2)
        v = e.array("x", [n]) if kind == "numbers" else e.build([n], lambda k: first + k * step)
        gap = lambda k: v[k + 1] - v[k]
    data = e.da(("x",), v, coords={"x": v}, name="x")
    w = warned(e, lambda: c.check_uniform(data))
    e.prove("check_uniform warns exactly if the spacing varies", w != e.forall_value([n - 1], lambda k: gap(k) == gap(0)))


@harness("C08", cases=100)
def unit_checks(e):
    """Any text as units, up to three valid ones, or none."""
    c = e.mod(CHK)
    pool = ("m", "kg m-2", "kg/m2", "", "KG m-2", "kg")
    units = e.text("units", pool) if e.bool("has units") else None
    valid = [e.text(f"valid {k}", pool) for k in range(e.choice("number of valid units", (0, 1, 2, 3)))]
    data = e.da(("level",), e.array("x", [e.dim("n")]), attrs={} if units is None else dict(units=units), name="x")
    w = warned(e, lambda: c.check_units(data, valid))
    fine = False
    for v in valid:
        fine = e.or_(fine, units is not None and v == units)
    e.prove("check_units warns exactly if the units are absent or none of the valid ones", e.iff(w, e.not_(fine)))
    e.prove("the units are not modified", e.iff(units is not None, "units" in data.attrs))


def axis(e, name, n, decreasing):
    """Coordinate values and whether they are uniform and in order."""
    step = e.choice(name + ".step", (0.25, 0.5, 1, 2))
    v = [k * step for k in range(n)]
    how = e.choice(name + ".how", ("fine", "fine", "fine", "reversed", "jump"))
    if decreasing != (how == "reversed"):
        v = v[::-1]
    if how == "jump" and n > 1:
        v[e.int(name + ".at", 0, n - 1)] += e.choice(name + ".by", (0.125, -0.125, 4, -4))
    d = [b - a for a, b in zip(v, v[1:])]
    return v, len(set(d)) <= 1 and all((x <= 0) if decreasing else (x >= 0) for x in d), len(set(d)) <= 1


def time_axis(e, n):
    import datetime
    import cftime
    cal = e.choice("calendar", ("standard", "noleap", "360_day"))
    cls = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day}[cal]
    v, ok, uni = axis(e, "time", n, False)
    return [cls(2020, 2, 27) + datetime.timedelta(hours=24 * x) for x in v], ok, uni


COORDS = ("time", "latitude", "longitude")


def fine_axis(e, k, n):
    """A coordinate as the check wants it: evenly spaced; latitudes decrease, the others increase."""
    if k == "time":
        return e.time_axis(e.time("t0"), e.int("hours", 1, 48) * 3600, n)
    first, step = e.real(k + " first", -100, 100), e.real(k + " step", 0, 2)
    return e.build([n], lambda i: first - i * step if k == "latitude" else first + i * step)


def any_axis(e, k, n):
    """An arbitrary coordinate, and whether it is evenly spaced and in order."""
    if k == "time":
        v = e.times("instants", n, increasing=False)
        gap = lambda i: e.secs(v[i + 1]) - e.secs(v[i])
    else:
        v = e.array("values", [n])
        gap = lambda i: (v[i] - v[i + 1]) if k == "latitude" else (v[i + 1] - v[i])
    even = e.forall_value([n - 1], lambda i: gap(i) == gap(0), name="even")
    ordered = e.forall_value([n - 1], lambda i: gap(i) >= 0, name="ordered")
    return v, even and ordered


@harness("C08", cases=200, maxdim=4)
def one_coordinate(e):
    """Data whose other coordinates are as they should be: one of them is arbitrary, absent, or not a dimension."""
    c = e.mod(CHK)
    k = e.choice("which", COORDS)
    sizes = {q: e.dim(q) for q in COORDS}
    how = e.choice("how", ("fine", "any", "bare", "absent"))
    coords = {q: fine_axis(e, q, sizes[q]) for q in COORDS if q != k or how == "fine"}
    fine = how == "fine"
    if how == "any":
        coords[k], fine = any_axis(e, k, sizes[k])
    dims = [q for q in COORDS if q != k or how != "absent"]
    data = e.da(dims, e.array("x", [sizes[q] for q in dims]), coords=coords, name="x")
    before = e.snapshot(data.values)
    w = warned(e, lambda: c.check_coords(data, list(COORDS)))
    e.prove("check_coords warns exactly if the coordinate is absent, not evenly spaced or out of order", w != fine)
    e.same("the data are not modified", data.values, before)
    if k in coords:
        e.check("the coordinate stays", k in data.coords)


@harness("C08", cases=120, sym=False, bounded_reason="several coordinates at fault at once; one is proved in one_coordinate", maxdim=4)
def coordinate_checks(e):
    c = e.mod(CHK)
    dims, coords, ok = [], {}, True
    for k in ("time", "latitude", "longitude"):
        if e.int("without " + k, 0, 9) == 0:
            ok = False
            continue
        n = e.dim(k)
        v, good, uni = time_axis(e, n) if k == "time" else axis(e, k, n, k == "latitude")
        dims.append((k, n))
        if e.int("bare " + k, 0, 9) == 0:
            ok = False
            continue
        coords[k] = v
        ok = ok and good
        single = e.xr.DataArray(v, dims=(k,), coords={k: v}, name=k)
        e.check("check_uniform warns exactly if the spacing varies", warned(e, lambda: c.check_uniform(single)) == (not uni))
    data = e.xr.DataArray(e.np.zeros([n for _, n in dims]), dims=[k for k, _ in dims], coords=coords, name="x")
    copy = data.copy(deep=True)
    e.check("check_coords warns exactly if a coordinate is absent, not uniform or out of order",
            warned(e, lambda: c.check_coords(data, ["time", "latitude", "longitude"])) == (not ok))
    unchanged(e, data, copy)


LIMITS = dict(evap=(0, Fraction(1, 1000)), precip=(0, Fraction(1, 10)), s_upper=(0, 1000), s_lower=(0, 1000),
              fx_upper=(-1000, 1000), fy_upper=(-1000, 1000), fx_lower=(-1000, 1000), fy_lower=(-1000, 1000))
UNITS = {"e": ("kg m-2 s-1", "kg/m2/s"), "p": ("kg m-2 s-1", "kg/m2/s"), "s": ("kg m-2", "kg/m2"),
         "f": ("kg m-1 s-1", "kg m^-1 s^-1", "kg m**-1 s**-1")}


@harness("C08", cases=120, maxdim=3, timeout=400, paths=1500)
def one_variable(e):
    """Complete input data that are as they should be except for one variable: its values, or its units, are arbitrary."""
    c = e.mod(CHK)
    v = e.choice("variable", tuple(LIMITS))
    how = e.choice("how", ("values", "units", "no units"))
    single = e.bool("single") if how == "values" else False     # (coordinates of any mixture of sizes: one_coordinate)
    dims = {k: 1 if single else e.dim(k, lo=2) for k in COORDS}
    shape = list(dims.values())
    coords = {k: fine_axis(e, k, n) for k, n in dims.items()}
    data, field = {}, None
    for q, (lo, hi) in LIMITS.items():
        attrs = dict(units=UNITS[q[0]][-1] if how == "values" else UNITS[q[0]][0])
        lo, hi = e.const(lo), e.const(hi)
        if q == v and how == "values":
            field = a = e.array(q + " any", shape, scale=0.0005 if q in ("evap", "precip") else 500)
            low, high = lo, hi
        else:
            a = e.array(q, shape, lo=lo, hi=hi, scale=0.0005 if q in ("evap", "precip") else 500)
        if q == v and how == "units":
            attrs = dict(units=e.text("units", UNITS[q[0]] + ("m", "kg m-2", "kg m-1 s-1", "")))
        elif q == v and how == "no units":
            attrs = {}
        data[q] = e.da(COORDS, a, coords=coords, attrs=attrs, name=q)
    ds = e.xr.Dataset(data)
    if e.is_sym():      # contract of check_uniform (spacing_check): no warning for these coordinates, which are evenly spaced
        def uniform(coord):
            e.check("coordinates of the data are checked", coord.name in COORDS)
        e.patch(CHK, check_uniform=uniform)
    w = warned(e, lambda: c.check_input(ds))
    if how == "values":
        e.prove("check_input warns exactly if a value is outside the range of its variable",
                w != e.forall_value(shape, lambda i, j, k: (field[i, j, k] >= low) & (field[i, j, k] <= high)))
    elif how == "units":
        fine = False
        for u in UNITS[v[0]]:
            fine = e.or_(fine, data[v].attrs["units"] == u)
        e.prove("check_input warns exactly if the units are not valid", e.iff(w, e.not_(fine)))
    else:
        e.check("check_input warns if there are no units", w)


@harness("C08", cases=80, sym=False, bounded_reason="several variables at fault at once; one is proved in one_variable", maxdim=3)
def input_check(e):
    """The check of complete input data warns exactly if one of the variables violates its conditions."""
    c = e.mod(CHK)
    dims = {k: e.dim(k) for k in ("time", "latitude", "longitude")}
    coords, ok = {}, True
    for k, n in dims.items():
        coords[k], good, _ = time_axis(e, n) if k == "time" else axis(e, k, n, k == "latitude")
        ok = ok and good
    limits = dict(evap=(0, 0.001), precip=(0, 0.1), s_upper=(0, 1000), s_lower=(0, 1000), fx_upper=(-1000, 1000), fy_upper=(-1000, 1000), fx_lower=(-1000, 1000), fy_lower=(-1000, 1000))
    unit = {"e": ("kg m-2 s-1", "kg/m2/s"), "p": ("kg m-2 s-1", "kg/m2/s"), "s": ("kg m-2", "kg/m2"), "f": ("kg m-1 s-1", "kg m**-1 s**-1")}
    data = {}
    for v, (lo, hi) in limits.items():
        a = e.np.zeros(list(dims.values())) + e.choice(v, (lo, hi, (lo + hi) / 2))
        odd = e.int(v + " odd", 0, 25)
        at = tuple(e.int(f"{v}.{k}", 0, n - 1) for k, n in dims.items())
        u = e.choice(v + ".units", unit[v[0]])
        if odd == 0:
            a[at], ok = hi * 1.01, False
        elif odd == 1:
            a[at], ok = lo * 1.01 - 1e-6, False
        elif odd == 2:
            u, ok = e.choice(v + ".other", ("m", "mm", "kg m-1", "kg m-2 s")), False
        data[v] = e.xr.DataArray(a, dims=list(dims), coords=coords, name=v, attrs=dict(units=u))
    ds = e.xr.Dataset(data)
    copy = ds.copy(deep=True)
    e.check("check_input warns exactly if something is wrong", warned(e, lambda: c.check_input(ds)) == (not ok))
    e.check("the data are not modified", ds.identical(copy))
