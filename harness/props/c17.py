"""C17: the solver solves the loaded instance and hands that result to every storer."""
import codecs
import contextlib
import copy
import io
import locale
import os
import tempfile
from pathlib import Path

from hypothesis import strategies as st

import algos
import gen
import plans
from core import Target, ensure
from world import World, jit, shape

from jinete import storers

ID = "C17"
ORACLE = "event history of recording loader, algorithm, storer and dispatcher; file and prompt contents against the formatted text"
RULE = ("solver: an instance, options for each collaborator, one or two solves by one solver. storers: a result stored by a generated set of "
        "recording, file, prompt and naive storers with a generated formatter, over absent or older longer/shorter files. files: a "
        "Cordeau-Laporte file solved from disk to disk. Non-trivial: at least one trip in the instance.")
ASSUMPTIONS = ["file storage is given a pathlib.Path, as its signature says", "texts beyond ASCII are stored where the locale's encoding is UTF-8 only"]


UTF8 = codecs.lookup(locale.getpreferredencoding(False)).name == "utf-8"


class Text(jit.StorerFormatter):
    """A formatter that names the result it was given."""

    body = ""

    def format(self):
        return f"{self.body}{len(self.result.planning.routes)} routes of {len(self.result.job.trips)} trips"


def texts(body):
    return type("TextFormatter", (Text,), {"body": body})


def pick_formatter(name, body):
    return {"columnar": jit.ColumnarStorerFormatter, "hashcode": jit.HashCodeStorerFormatter, "text": texts(body),
            None: None}[name]


def expected_text(name, body, result):
    cls = pick_formatter(name, body) or jit.ColumnarStorerFormatter
    return cls(result=result).format()


# ---------------------------------------------------------------------------------------------
def check_solver(case, ctx):
    world = World(case["inst"], case["order"])
    events = []
    loads = []

    class RecordingLoader(jit.Loader):
        def __init__(self, *args, **kwargs):
            self.options = {k: kwargs.pop(k) for k in list(kwargs) if k.startswith("loader_")}
            super().__init__(*args, **kwargs)
            # every loader builds its own instance, as a file loader does
            loads.append(world if not loads else World(case["inst"], fresh_order=False))
            self.world = loads[-1]
            events.append(("loader", self.options, self._formatter_cls))

        @property
        def _data(self):
            return None

        @property
        def fleet(self):
            return self.world.fleet

        @property
        def job(self):
            return self.world.job

        @property
        def surface(self):
            return self.world.surface

    class RecordingAlgorithm(jit.InsertionAlgorithm):
        def __init__(self, *args, **kwargs):
            self.options = {k: kwargs.pop(k) for k in list(kwargs) if k.startswith("algorithm_")}
            super().__init__(*args, **kwargs)
            events.append(("algorithm", self.options, self.fleet, self.job,
                           {k: v for k, v in kwargs.items() if k not in ("fleet", "job")}))

        def optimize(self):
            result = super().optimize()
            events.append(("result", result, [shape(r) for r in result.routes]))
            return result

    class RecordingStorer(jit.Storer):
        def __init__(self, *args, **kwargs):
            self.options = {k: kwargs.pop(k) for k in list(kwargs) if k.startswith("storer_")}
            super().__init__(*args, **kwargs)
            events.append(("storer", self.options, self.result, self.formatter_cls))

        def store(self):
            events.append(("store", self.result))

    class RecordingDispatcher(jit.StaticDispatcher):
        def __init__(self, *args, **kwargs):
            self.options = {k: kwargs.pop(k) for k in list(kwargs) if k.startswith("dispatcher_")}
            super().__init__(*args, **kwargs)
            events.append(("dispatcher", self.options))

    formatter = pick_formatter(case["formatter"], "x")
    given = {"loader": dict(case["loader"]), "algorithm": {**case["algorithm"], **algos.insertion_kwargs(case["insertion"])},
             "storer": dict(case["storer"]), "dispatcher": dict(case["dispatcher"])}
    if formatter is not None:
        given["storer"]["formatter_cls"] = formatter
    if case["loader_formatter"]:
        given["loader"]["formatter_cls"] = jit.HashCodeLoaderFormatter
    before = copy.copy({k: dict(v) for k, v in given.items()})
    kwargs = {"loader": RecordingLoader, "algorithm": RecordingAlgorithm, "storer": RecordingStorer,
              "dispatcher": RecordingDispatcher}
    for name, value in given.items():
        if value:
            kwargs[name + "_kwargs"] = value
    if case["dispatcher"] is None or case["plain_dispatcher"]:
        kwargs.pop("dispatcher")
        kwargs.pop("dispatcher_kwargs", None)
    solver = jit.Solver(**kwargs)
    ensure(not events, "something runs before solve is called")
    for turn in range(case["solves"]):
        del events[:]
        got = solver.solve()
        by = {}
        for e in events:
            by.setdefault(e[0], []).append(e)
        for name in ("loader", "algorithm", "result", "storer", "store") + (() if case["plain_dispatcher"] else ("dispatcher",)):
            ensure(len(by.get(name, [])) == 1, f"solve {turn + 1}: {len(by.get(name, []))} times '{name}'")
        order = [e[0] for e in events]
        ensure(order.index("loader") < order.index("algorithm") < order.index("result") < order.index("store"),
               f"solve {turn + 1}: wrong order {order}")
        ensure(order.index("result") < order.index("storer"), f"solve {turn + 1}: the storer is built before there is a result")
        _, options, cls = by["loader"][0]
        ensure(options == case["loader"], lambda: f"the loader gets options {options}, given {case['loader']}")
        ensure(cls is (jit.HashCodeLoaderFormatter if case["loader_formatter"] else jit.CordeauLaporteLoaderFormatter),
               f"the loader gets formatter {cls}")
        loaded = loads[-1]
        ensure(len(loads) == turn + 1, f"{len(loads)} loaders built by {turn + 1} solves")
        _, options, fleet, job, rest = by["algorithm"][0]
        ensure(options == case["algorithm"], lambda: f"the algorithm gets options {options}, given {case['algorithm']}")
        ensure(rest == algos.insertion_kwargs(case["insertion"]), lambda: f"the algorithm gets arguments {rest}")
        ensure(fleet is loaded.fleet, "the algorithm gets another fleet than the loaded one")
        ensure(job is loaded.job, "the algorithm gets another job than the loaded one")
        _, result, shapes = by["result"][0]
        _, options, handed, cls = by["storer"][0]
        ensure(options == case["storer"], lambda: f"the storer gets options {options}, given {case['storer']}")
        ensure(cls is (formatter or jit.ColumnarStorerFormatter), f"the storer gets formatter {cls}")
        ensure(handed is result, "the storer gets another result than the algorithm's")
        ensure(by["store"][0][1] is result, "another result is stored")
        ensure(got is result, "solve returns another result than the algorithm's")
        ensure(sorted(shapes) == sorted(shape(r) for r in got.routes), "the result's plan changes after the optimisation")
        ensure(got.job is loaded.job and got.fleet is loaded.fleet, "the result is not about the loaded instance")
        if not case["plain_dispatcher"]:
            ensure(by["dispatcher"][0][1] == case["dispatcher"], "the dispatcher's options are lost")
    ensure({k: dict(v) for k, v in given.items()} == before, "solving changes the options it is given")
    ctx.label(f"{case['solves']} solves")
    ctx.nontrivial(bool(case["inst"]["trips"]))


def options(prefix):
    return st.dictionaries(st.integers(0, 3).map(lambda i: f"{prefix}_{i}"), st.integers(0, 9), max_size=3)


@st.composite
def solver_cases(draw):
    return {"inst": draw(gen.instance(trips=(0, 5), vehicles=(1, 3))), "order": draw(gen.orders),
            "insertion": draw(algos.insertion()), "loader": draw(options("loader")), "algorithm": draw(options("algorithm")),
            "storer": draw(options("storer")), "dispatcher": draw(options("dispatcher")), "plain_dispatcher": draw(gen.half),
            "solves": draw(st.integers(1, 2)), "formatter": draw(st.sampled_from([None, "text", "hashcode"])),
            "loader_formatter": draw(gen.half)}


# ---------------------------------------------------------------------------------------------
OLD = {"absent": None, "empty": "", "short": "#", "long": "old line\n" * 400}


def check_storers(case, ctx):
    world = World(case["inst"], case["order"])
    if case["cfg"] is not None:
        result = algos.run(world, case["cfg"])
    else:
        result = plans.make_result(world, plans.build_planning(world, case))
    shapes = sorted(shape(r) for r in result.routes)
    cls = pick_formatter(case["formatter"], case["body"])
    text = expected_text(case["formatter"], case["body"], result)
    events = []
    printed = 0
    with tempfile.TemporaryDirectory(prefix="verif-c17-") as folder:
        files = []
        members = []
        for number, (kind, old) in enumerate(case["members"]):
            if kind == "record":
                members.append(_recorder(number, events))
            elif kind == "file":
                path = Path(folder) / f"{number}.txt"
                if OLD[old] is not None:
                    path.write_text(OLD[old])
                files.append(path)
                members.append(_file_storer(path))
            elif kind == "prompt":
                printed += 1
                members.append(type("Prompt", (jit.PromptStorer,), {}))
            else:
                members.append(type("Naive", (storers.NaiveStorer,), {}))
        kwargs = {"result": result}
        if cls is not None:
            kwargs["formatter_cls"] = cls
        bystander = Path(folder) / "bystander"
        bystander.write_text("untouched")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if len(members) == 1 and case["alone"]:
                members[0](**kwargs).store()
                ctx.label("one storer, no set")
            else:
                jit.StorerSet(storer_cls_set=set(members) if case["as_set"] else members, **kwargs).store()
                ctx.label(f"set of {min(len(members), 4)}")
        for path in files:
            got = path.read_bytes()
            ensure(got == text.encode(), lambda: f"the file holds {got[:200]!r}..., the formatted text is {text[:200]!r}...")
        ensure(sorted(os.listdir(folder)) == sorted([p.name for p in files] + ["bystander"])
               and bystander.read_text() == "untouched", "other files are touched")
    ensure(out.getvalue() == (text + "\n") * printed,
           lambda: f"printed {out.getvalue()[:300]!r}, expected {printed} times {text[:200]!r} and a line end")
    records = [n for n, (kind, _) in enumerate(case["members"]) if kind == "record"]
    ensure(sorted(n for n, _, _, _ in events) == records, lambda: f"members {records}, stored by {[e[0] for e in events]}")
    for n, got, formatter, formatted in events:
        ensure(got is result, "a member of the set stores another result")
        ensure(formatter is (cls or jit.ColumnarStorerFormatter), f"a member of the set formats with {formatter}")
        ensure(formatted == text, "a member of the set formats another text")
    ensure(sorted(shape(r) for r in result.routes) == shapes, "storing changes the plan")
    for kind, old in case["members"]:
        ctx.label(f"{kind} {old}" if kind == "file" else kind)
    ctx.nontrivial(bool(case["inst"]["trips"]) and bool(members))


def _recorder(number, events):
    class Recorder(jit.Storer):
        def store(self):
            events.append((number, self.result, self.formatter_cls, self._formatted))

    return Recorder


def _file_storer(path):
    class File(jit.FileStorer):
        def __init__(self, *args, **kwargs):
            super().__init__(path, *args, **kwargs)

    return File


member = st.tuples(st.sampled_from(["record", "file", "prompt", "naive", "record", "file"]), st.sampled_from(sorted(OLD))).map(list)


@st.composite
def storer_cases(draw):
    case = draw(plans.plan_case(trips=(0, 5), vehicles=(1, 3), merge=draw(gen.half), wants=True))
    # HashCode identifiers are numbers, which every generated identifier is
    case.update(order=draw(gen.orders), cfg=draw(st.one_of(st.none(), algos.config(("insertion", "local")))),
                members=draw(st.lists(member, min_size=0 if draw(gen.rare) else 1, max_size=5)), alone=draw(gen.half), as_set=draw(gen.half),
                formatter=draw(st.sampled_from([None, "columnar", "hashcode", "text", "text"])),
                body=draw(st.sampled_from(["", "abc ", "two\nlines\n", "\n\n", "carriage\r\nreturn ", "%s {0} \\n\t", "x" * 5000] + (["5 \u20ac, \u6771\u4eac \U0001d11e ", "\xe9"] if UTF8 else []))))
    return case


# ---------------------------------------------------------------------------------------------
def check_files(case, ctx):
    """From disk to disk with the library's own collaborators and defaults."""
    n = len(case["requests"])
    rows = [[case["m"], 2 * n, case["duration"], case["capacity"], case["ride"]], [0, 0, 0, 0, 0, 0, 1440]]
    rows += [[i + 1, *r["o"], r["od"], r["load"], r["oe"], r["ol"]] for i, r in enumerate(case["requests"])]
    rows += [[n + i + 1, *r["d"], r["od"], -r["load"], r["oe"], r["ol"] + 200] for i, r in enumerate(case["requests"])]
    with tempfile.TemporaryDirectory(prefix="verif-c17-") as folder:
        source = Path(folder) / "instance.txt"
        content = "".join(" ".join(map(str, row)) + "\n" for row in rows)
        source.write_text(content)
        target = Path(folder) / "solution.txt"
        kwargs = {"loader_kwargs": {"file_path": source if case["path"] else str(source)}}
        if not case["defaults"]:
            kwargs["algorithm"] = jit.InsertionAlgorithm
            kwargs["algorithm_kwargs"] = algos.insertion_kwargs(case["insertion"])
        if case["to"] == "file":
            kwargs.update(storer=jit.FileStorer, storer_kwargs={"file_path": target})
        elif case["to"] == "set":
            kwargs.update(storer=jit.StorerSet, storer_kwargs={"storer_cls_set": {jit.PromptStorer, _file_storer(target)},
                                                               "formatter_cls": jit.HashCodeStorerFormatter})
        elif case["to"] == "naive":
            kwargs.update(storer=storers.NaiveStorer)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            result = jit.Solver(**kwargs).solve()
        formatter = jit.HashCodeStorerFormatter if case["to"] == "set" else jit.ColumnarStorerFormatter
        text = formatter(result=result).format()
        if case["to"] in ("file", "set"):
            ensure(target.read_bytes() == text.encode(), lambda: f"the file holds {target.read_bytes()[:300]!r}, result {text[:300]!r}")
        ensure(sorted(os.listdir(folder)) == sorted(["instance.txt"] + (["solution.txt"] if case["to"] in ("file", "set") else [])),
               "unexpected files are left")
        want = text + "\n" if case["to"] in ("prompt", "set") else ""
        ensure(out.getvalue() == want, lambda: f"printed {out.getvalue()[:300]!r}, expected {want[:300]!r}")
        ensure(source.read_text() == content, "the instance file is changed")
    ids = sorted(t.identifier for t in result.job.trips)
    ensure(ids == sorted(str(i + 1) for i in range(n)), f"the solved instance has trips {ids}, the file {n}")
    for t in result.job.trips:
        r = case["requests"][int(t.identifier) - 1]
        ensure((list(t.origin_position.coordinates), list(t.destination_position.coordinates), t.capacity) == (r["o"], r["d"], r["load"]),
               f"the solved instance has another trip {t.identifier}")
    vehicles = list(result.fleet.vehicles)
    ensure(len(vehicles) == case["m"] and all((v.capacity, v.timeout) == (case["capacity"], case["duration"]) for v in vehicles),
           "the solved instance has other vehicles than the file")
    for route in result.routes:
        ensure(any(route.vehicle is v for v in vehicles), "a route of a vehicle that was not loaded")
        ensure(all(any(t is x for x in result.job.trips) for t in route.trips), "a route serves a trip that was not loaded")
    ctx.label(case["to"])
    ctx.nontrivial(n > 0)


@st.composite
def file_cases(draw):
    requests = []
    for _ in range(draw(st.integers(0, 4))):
        oe = draw(st.integers(0, 60))
        requests.append({"o": list(draw(st.tuples(gen.ints(-8, 8), gen.ints(-8, 8)))), "d": list(draw(st.tuples(gen.ints(-8, 8), gen.ints(-8, 8)))),
                         "od": draw(st.integers(0, 4)), "load": draw(st.integers(1, 3)), "oe": oe, "ol": oe + draw(st.integers(0, 100))})
    return {"m": draw(st.integers(1, 3)), "duration": draw(st.integers(50, 480)), "capacity": draw(st.integers(3, 6)),
            "ride": draw(st.integers(40, 90)), "requests": requests, "path": draw(gen.half), "defaults": draw(gen.half),
            "insertion": draw(algos.insertion()), "to": draw(st.sampled_from(["prompt", "file", "set", "naive"]))}


TARGETS = [
    Target("solver", solver_cases(), check_solver, 1500, 60000),
    Target("storers", storer_cases(), check_storers, 1800, 60000),
    Target("files", file_cases(), check_files, 1000, 30000),
]
