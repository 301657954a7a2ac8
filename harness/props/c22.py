"""C22: combinatorial helpers sample and deduplicate exactly."""
import itertools
import math
from random import Random

from hypothesis import strategies as st

import gen
from core import Target, ensure
from world import jit

ID = "C22"
ORACLE = "exhaustive pair sets, a first-occurrence model and math.comb"
RULE = ("A case is a size, a requested count and a seed (sample_index_pairs), a list with repetitions (remove_duplicates) or n and r (ncr). "
        "Non-trivial: sampling with more pairs than requested and a positive count, a list with a repetition, or 0 < r < n.")
ASSUMPTIONS = ["sampling needs n >= 2, as every route has at least two stops; reachability is judged over 60 seeds x enough draws for each pair to be missed with probability below 1e-9"]

from jinete.utils import remove_duplicates, sample_index_pairs  # noqa: E402
from jinete.utils.random import ncr  # noqa: E402


def check_sample(case, ctx):
    n, count, seed = case["n"], case["count"], case["seed"]
    total = n * (n - 1) // 2
    runs = []
    for _ in range(2):
        runs.append([tuple(p) for p in sample_index_pairs(n, count, Random(seed))])
    got = runs[0]
    ensure(all(0 <= i < j < n for i, j in got), lambda: f"pairs out of range for n={n}: {got}")
    ensure(len(set(got)) == len(got), "a pair is sampled twice")
    ensure(len(got) == min(total, count), lambda: f"{len(got)} pairs for n={n}, count={count}, {total} exist")
    ensure(set(runs[0]) == set(runs[1]) and runs[0] == runs[1], "the same seed gives other pairs")
    free = [tuple(p) for p in sample_index_pairs(n, count)]
    ensure(len(set(free)) == len(free) == min(total, count) and all(0 <= i < j < n for i, j in free), "sampling without a generator")
    ctx.label("all pairs" if total <= count else "sampled")
    ctx.nontrivial(0 < count < total)


def check_reach(case, ctx):
    """Every pair can be drawn."""
    n, count, seed = case["n"], case["count"], case["seed"]
    total = n * (n - 1) // 2
    want = set(itertools.combinations(range(n), 2))
    seen = set()
    # the least likely pair has probability at least 1 / ((n - 1) * (n - 1)) per accepted draw
    draws = int(math.ceil(25 * (n - 1) * (n - 1) / max(1, min(count, total)))) + 5
    generator = Random(seed)
    for _ in range(draws):
        seen.update(tuple(p) for p in sample_index_pairs(n, count, generator))
        if seen == want:
            break
    ensure(seen == want, lambda: f"pairs {sorted(want - seen)[:5]} of {n} elements are never sampled (count {count}, {draws} draws)")
    ctx.label(f"n={n}" if n < 10 else "n >= 10")
    ctx.nontrivial(0 < count < total)


def check_dups(case, ctx):
    items = [tuple(x) if isinstance(x, list) else x for x in case["items"]]
    before = list(items)
    want = []
    for x in items:
        if not any(x == y for y in want):
            want.append(x)
    got = remove_duplicates(items)
    ensure(list(got) == want, lambda: f"{items} deduplicated to {got}")
    ensure(all(any(a is b for b in items) for a in got), "an element was replaced")
    first = {i: next(k for k, y in enumerate(items) if y == x) for i, x in enumerate(want)}
    ensure(all(got[i] is items[k] for i, k in first.items()), "not the first occurrence was kept")
    ensure(items == before, "the given list was changed")
    ctx.nontrivial(len(want) < len(items))


def check_ncr(case, ctx):
    n, r = case["n"], case["r"]
    got = ncr(n, r)
    ensure(got == math.comb(n, r) and isinstance(got, int), lambda: f"ncr({n}, {r}) = {got}, exactly {math.comb(n, r)}")
    ctx.nontrivial(0 < r < n)


sample_cases = st.fixed_dictionaries({"n": st.one_of(st.integers(2, 12), st.integers(2, 40), st.integers(41, 300)),
                                      "count": st.one_of(st.integers(0, 12), st.integers(0, 150)), "seed": st.integers(0, 2 ** 32)})
reach_cases = st.fixed_dictionaries({"n": st.integers(2, 9), "count": st.integers(1, 8), "seed": st.integers(0, 2 ** 32)})
far_cases = st.fixed_dictionaries({"n": st.integers(10, 90), "count": st.integers(5, 40), "seed": st.integers(0, 2 ** 32)})
element = st.one_of(st.integers(-3, 3), st.sampled_from(["a", "b", "", "1"]), st.sampled_from([0.0, 1.0, 2.5]), st.booleans(),
                    st.none(), st.lists(st.integers(0, 1), max_size=2))
many = st.lists(st.integers(0, 60), min_size=20, max_size=120)
dups_cases = st.fixed_dictionaries({"items": st.one_of(st.lists(element, max_size=12), st.lists(element, max_size=60), many)})


@st.composite
def ncr_cases(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 300)))
    return {"n": n, "r": draw(st.integers(0, n))}


TARGETS = [
    Target("sample", sample_cases, check_sample, 3000, 100000),
    Target("reach", reach_cases, check_reach, 200, 4000),
    Target("far reach", far_cases, check_reach, 40, 600),
    Target("dedup", dups_cases, check_dups, 1500, 60000),
    Target("binomial", ncr_cases(), check_ncr, 800, 30000),
]
