"""Writes /verif/known_findings.json. (Not run by any check.)"""
import json

BASE = [
    {"o": "gp", "id": "p1", "mean": ["zero"], "kernel": ["eq"], "nm": "M1", "c": 0},
    {"o": "gp", "id": "p2", "mean": ["zero"], "kernel": ["m32"], "m": "M1", "how": "kw", "c": 0},
    {"o": "cross", "id": "p3", "ps": ["p1", "p2"], "c": 0},
    {"o": "x", "id": "x1", "f": "v", "v": [0.0, 1.0], "c": 0},
    {"o": "x", "id": "x2", "f": "v", "v": [0.5], "c": 0},
]
MUL = {"o": "un", "id": "p4", "p": "p3", "k": "mul_c", "a": 2.0, "c": 0}
SHIFT = {"o": "un", "id": "p4", "p": "p3", "k": "shift", "a": 0.1, "c": 0}
ADD = {"o": "bin", "id": "p4", "p": "p3", "q": "p3", "k": "add", "c": 0}
SUB = {"o": "bin", "id": "p4", "p": "p3", "q": "p3", "k": "sub", "c": 0}
ZERO = {"o": "un", "id": "p4", "p": "p3", "k": "mul_c", "a": 0.0, "c": 0}
LOSS = [
    {"o": "fdd", "id": "d1", "p": "p4", "x": "x1", "noise": ["s", 0.5], "c": 0},
    {"o": "y", "id": "y1", "v": [0.3, None, 0.1, -0.4], "f": "v", "c": 0},
    {"o": "obs", "id": "o1", "method": "exact", "items": [["d1", "y1"]], "c": 0},
    {"o": "cond", "id": "M2", "m": "M1", "items": [["d1", "y1"]], "form": "or", "c": 0},
    {"o": "fresh", "m": "M2", "p": "p1", "x": "x2", "noise": None, "ks": ["mean"], "c": 0},
]
ONE = [
    {"o": "cross", "id": "p6", "ps": ["p1"], "c": 0},
    {"o": "un", "id": "p4", "p": "p6", "k": "add_c", "a": 1.5, "c": 0},
    {"o": "fdd", "id": "d1", "p": "p4", "x": "x1", "noise": ["s", 0.5], "c": 0},
    {"o": "y", "id": "y1", "v": [0.3, None], "f": "v", "c": 0},
] + LOSS[2:]
LATE = {"o": "gp", "id": "p5", "mean": ["zero"], "kernel": ["eq"], "m": "M1", "how": "kw", "c": 0}
QK = {"o": "qk", "m": "M1", "p": "p5", "q": "p4", "x": "x1", "ew": False, "y2": "x1", "c": 0}
QM = {"o": "qm", "m": "M1", "p": "p4", "x": "x1", "c": 0}


def case(ops):
    return {"seed": 1, "env": {"ids": "mono", "idseed": 0}, "ops": ops, "beyond": True}


LOST = (
    "conditioning on data with missing values of a multi-output process that is derived from a Cartesian product "
    "({}) raises IndexError in stheno/model/fdd.py:_take_x, because the inputs are shared by the outputs"
)
FINDINGS = [
    ("C04", LOST.format("2 * cross(f, g)"), ["exc:obs:IndexError"], BASE + [MUL] + LOSS),
    ("C04", LOST.format("cross(f, g).shift(0.1)"), ["exc:obs:IndexError"], BASE + [SHIFT] + LOSS),
    ("C04", LOST.format("cross(f, g) + cross(f, g)"), ["exc:obs:IndexError"], BASE + [ADD] + LOSS),
    ("C04", "conditioning on data with missing values of cross(f) + 1.5 raises RuntimeError, because the mean of the sum "
     "cannot be evaluated at the finite-dimensional distributions that stheno/mo/kernel.py:_take_x makes of the inputs",
     ["exc:fresh:RuntimeError"], BASE + ONE),
    ("C15", "the covariance between a process added after 2 * cross(f, g) and 2 * cross(f, g) has the size of one output",
     ["value:qk"], BASE + [MUL, LATE, QK]),
    ("C15", "cross(f, g) - cross(f, g) has a mean and variance of the size of one output", ["value:qm"], BASE + [SUB, QM]),
    ("C15", "0 * cross(f, g) has a mean and variance of the size of one output", ["value:qm"], BASE + [ZERO, QM]),
]
FIXED = """C07 3b20113 the primary measure of derived processes depended on hash order (also C14)
C08 3554d34 re-entering an active measure lost the default that was active before
C09 d800e14 a refused re-naming left the process without a name
C09 b4801cc naming a process that is refused by one of its measures re-named it in the others
C10 c1469d0 mean_var and marginals returned unresolved means and variances depending on earlier accesses
C12 2c38dc3 the identity of a process whose construction failed half-way could be reused (also C14)
C06 a9fe9f4 sizes of nested multi-output processes were inferred wrongly (also C04, C15)
C01 ace9539 the mean of a product of dependent processes lacked their covariance
C01 2367219 diagonals of the variance of products were computed wrongly (also C05, C10)
C04 0206a8b missing values at scalar inputs failed
C15 e5cf130 covariances between a Cartesian product and processes added later had the wrong size (also C02)
C10 81db951 KL divergence and Wasserstein distance failed for means of different structure
C02 62f4e24 posteriors given several products inferred the wrong dimensionality (also C15)
C05 8b19a9c chained approximate posteriors inferred the wrong dimensionality (also C15)
C18 edc7342 the second moment of batched normals failed or was wrong
C18 7181213 the Wasserstein distance summed the means of all batch elements"""
fixed = []
for line in FIXED.splitlines():
    p, c, what = line.split(" ", 2)
    fixed.append(f"fixed: property={p} {c} {what}")
json.dump(
    {"findings": [{"property": p, "what": w, "classes": c, "case": case(ops)} for p, w, c, ops in FINDINGS], "fixed": fixed},
    open("/verif/known_findings.json", "w"),
    indent=1,
)
