"""Shared by C13 and C14: writing generated instance files and reading the loaded parts."""
import os
import tempfile
from pathlib import Path

from hypothesis import strategies as st

import gen
import ref
from core import ensure
from world import jit

READS = ("surface", "fleet", "job")


@st.composite
def layout(draw):
    """How the numbers are written down."""
    return {"sep": draw(st.sampled_from([" ", "  ", "\t", " \t"])), "lead": draw(st.sampled_from(["", "", "  "])),
            "trail": draw(st.sampled_from(["", "", " "])), "style": draw(st.integers(0, 3)),
            "last_newline": draw(gen.half), "as_text": draw(gen.half),
            "reads": draw(st.lists(st.integers(0, 2), max_size=5)), "default": draw(gen.half)}


def write(value, style):
    if style == 1:
        return f"{value:.3f}"
    if style == 2 and value == int(value) and abs(value) < 1e15:
        return f"{value:.1f}"
    if style == 3 and value >= 0:
        return f"+{value!r}" if value else "0"
    return str(int(value)) if value == int(value) else repr(value)


def text(rows, how):
    lines = [how["lead"] + how["sep"].join(write(v, how["style"]) for v in row) + how["trail"] for row in rows]
    return "\n".join(lines) + ("\n" if how["last_newline"] else "")


def as_written(value, style):
    return float(write(value, style))


class Loaded:
    """Writes the file, loads it, reads its parts in the generated order and again."""

    def __init__(self, content, formatter_cls, how):
        self.folder = tempfile.TemporaryDirectory(prefix="verif-load-")
        path = os.path.join(self.folder.name, "instance.txt")
        with open(path, "w") as file:
            file.write(content)
        kwargs = {} if formatter_cls is None else {"formatter_cls": formatter_cls}
        self.loader = jit.FileLoader(file_path=path if how["as_text"] else Path(path), **kwargs)
        seen = {}
        for i in how["reads"]:
            name = READS[i]
            value = getattr(self.loader, name)
            ensure(seen.setdefault(name, value) is value, f"reading the {name} again gives another object")
        self.fleet, self.job, self.surface = self.loader.fleet, self.loader.job, self.loader.surface
        for name, value in seen.items():
            ensure(getattr(self, name) is value, f"reading the {name} again gives another object")
        with open(path) as file:
            ensure(file.read() == content, "loading changed the file")
        self.folder.cleanup()


def spaces(loaded, points, metric):
    """All the loaded parts live on the loaded surface; it measures with the metric."""
    positions = [p for v in loaded.fleet.vehicles for p in (v.origin_position, v.destination_position)]
    positions += [p for t in loaded.job.trips for p in (t.origin_position, t.destination_position)]
    ensure(all(p.surface is loaded.surface for p in positions), "a loaded part lives on another coordinate space")
    got = {tuple(p.coordinates) for p in loaded.surface.positions}
    ensure(got == points and len(loaded.surface.positions) == len(points),
           lambda: f"the coordinate space has positions {sorted(got)}, the file has {sorted(points)}")
    for t in loaded.job.trips:
        a, b = t.origin_position, t.destination_position
        want = ref.dist(metric, a.coordinates, b.coordinates)
        ensure(ref.close(t.distance, want) and ref.close(a.time_to(b), want), lambda: f"distance {t.distance}, {metric} is {want}")
    for v in loaded.fleet.vehicles:
        for t in loaded.job.trips:
            want = ref.dist(metric, v.origin_position.coordinates, t.origin_position.coordinates)
            ensure(ref.close(v.origin_position.distance_to(t.origin_position), want), "distance between depot and trip")


def same_set(got, want, what):
    ensure(len(got) == len(want), lambda: f"{len(got)} {what}, the file has {len(want)}")
    by_id = {x.identifier: x for x in got}
    ensure(set(by_id) == set(want), lambda: f"{what} named {sorted(by_id)}, expected {sorted(want)}")
    return by_id


def equal(got, want, what):
    ensure(got == want, lambda: f"{what} is {got}, the file says {want}")
