"""Parameter files."""

import csv
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import problems, unif_bounds

RULE = "Random parameter files: delimiters, spacing, comments, blank lines, line ends, number formats, optional group and distribution columns; non-trivial = more than the plain three columns, or comments."

COMMENTS = ["#", "# name lower_bound upper_bound", "# name,lower,upper", "#P0 0.0 1.0", "# a note, with: punctuation; and so on\t|", "  # indented", "#x1,0,1,G,norm"]
FMT = ["repr", "%.17g", "%.17e", "+"]


@st.composite
def names_of(draw, n, spaces):
    style = draw(st.sampled_from(["x%d", "P%d", "alpha_%d", "k-%d", "%d", "m.%d", "rate#%d", "no.%d#", "\u03b2%d", "NA%d", "UP_%d", "%dE"] + (["P %d", "the rate %d", "a b c d %d"] if spaces else [])))
    return [style % (i + 1) for i in draw(st.permutations(range(n)))]


@st.composite
def files(draw):
    d = draw(st.sampled_from([" ", ",", "\t", ";", ", "]))
    n = draw(st.integers(1, 9)) if draw(st.integers(0, 9)) else draw(st.integers(30, 90))
    spaces = d != " "
    names = draw(names_of(n, spaces))
    cols = draw(st.sampled_from([3, 3, 4, 4, 5]))
    groups = draw(st.lists(st.sampled_from(["Group_1", "Group_2", "G", "NA", "NA", draw(st.sampled_from(["NAT", "na", "NA2", "A#1", "1", "#"[:0] + "unif", "NONE", "None", "nan"]))] + (["Group 3"] if spaces else []) + names[:2]), min_size=n, max_size=n))
    rows = []
    for i in range(n):
        b = draw(unif_bounds())
        r = {"name": names[i], "lo": b[0], "hi": b[1], "g": None, "d": None, "f": draw(st.sampled_from(FMT))}
        w = cols
        if w > 3:
            r["g"] = groups[i]
        if w > 4:
            r["d"] = draw(st.sampled_from(["unif", "unif", "norm", "lognorm", "logunif", "weibull"]))
        rows.append(r)
    if draw(st.integers(0, 3)) == 0:
        for r in rows:
            r["d"] = r["d"] and "unif"
    return {
        "delim": d,
        "rows": rows,
        "comments": draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(COMMENTS if spaces else [c for c in COMMENTS if c[0] == "#"])), max_size=3)),
        "blank": draw(st.lists(st.integers(0, n + 2), max_size=2)),
        "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
        "last": draw(st.booleans()),
        "given": draw(st.booleans()),
    }


def num(x, f):
    if f == "repr":
        return repr(x)
    if f == "+":
        return "%+.17g" % x
    return f % x


def text(case):
    lines = []
    for r in case["rows"]:
        c = [r["name"], num(r["lo"], r["f"]), num(r["hi"], r["f"])]
        c += [x for x in (r["g"], r["d"]) if x is not None]
        lines.append(case["delim"].join(c))
    for k, c in case["comments"]:
        lines.insert(k, c)
    for k in case["blank"]:
        lines.insert(k, "")
    return case["eol"].join(lines) + (case["eol"] if case["last"] else "")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf-")
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


def expected(case):
    R = case["rows"]
    names = [r["name"] for r in R]
    groups = [r["name"] if r["g"] in (None, "NA") else r["g"] for r in R]
    dists = [r["d"] or "unif" for r in R]
    one = groups != names and len(set(groups)) == 1
    return {
        "names": names,
        "bounds": [[r["lo"], r["hi"]] for r in R],
        "num_vars": len(R),
        "groups": None if groups == names else groups,
        "dists": None if set(dists) == {"unif"} else dists,
    }, one


@sub("C26", files(), quick=3000, rule="comments, groups or distributions present")
def reads_what_the_file_says(case, t):
    from SALib.util import read_param_file

    want, one = expected(case)
    d = case["delim"].strip(" ") or " "
    with Scratch() as tmp:
        f = os.path.join(tmp, "p.txt")
        with open(f, "w", newline="") as h:
            h.write(text(case))
        try:
            got = read_param_file(f, d) if case["given"] else read_param_file(f)
        except ValueError as e:
            if one and "group" in str(e):
                t.label("single group refused")
                return
            fail("{}: {}", type(e).__name__, e)
        except csv.Error as e:
            fail("{}", e)
    require(not one, "a single group was accepted")
    require(set(got) == set(want), "keys {}", sorted(got))
    for k in want:
        require(got[k] == want[k] and type(got[k]) is type(want[k]), "{}: {} instead of {}", k, repr(got[k]).replace("{", "("), repr(want[k]).replace("{", "("))
    t.nontrivial(bool(case["comments"] or want["groups"] or want["dists"]))
    t.label("comments", bool(case["comments"]))
    t.label("groups", bool(want["groups"]))
    t.label("dists", bool(want["dists"]))


@st.composite
def problem_cases(draw):
    p = draw(problems(2, 6, kinds=["unif", "norm", "lognorm", "logunif", "weibull2"]))
    return {"p": p, "delim": draw(st.sampled_from([",", ";", "\t"])), "N": draw(st.sampled_from([4, 8]))}


@sub("C26", problem_cases(), quick=300, rule="groups or distributions present")
def the_file_and_the_dictionary_are_the_same_problem(case, t):
    """Sampling the problem read from a file equals sampling the dictionary."""
    import numpy as np
    from SALib.sample import latin, sobol
    from SALib.util import read_param_file

    p = case["p"]
    n = p["num_vars"]
    rows = []
    for i in range(n):
        rows.append(case["delim"].join([p["names"][i], repr(p["bounds"][i][0]), repr(p["bounds"][i][1]),
                                        p["groups"][i] if p.get("groups") else "NA", p["dists"][i] if p.get("dists") else "unif"]))
    with Scratch() as tmp:
        f = os.path.join(tmp, "p.txt")
        with open(f, "w") as h:
            h.write("\n".join(rows) + "\n")
        q = read_param_file(f, case["delim"])
    a, b = sobol.sample(q, case["N"], seed=3), sobol.sample(dict(p), case["N"], seed=3)
    require(np.array_equal(a, b), "Sobol' samples differ")
    require(np.array_equal(latin.sample(q, 5, seed=2), latin.sample(dict(p), 5, seed=2)), "Latin samples differ")
    t.nontrivial(bool(p.get("groups") or p.get("dists")))
