"""Properties, the harnesses that decide them and what they assume. gen.py derives
properties.jsonl and MANIFEST.json from this table; check.py runs it."""

COMMON_ASSUMPTIONS = [
    "the code checked is the WebAssembly that rustc emits from /repo's working tree (wasm32-unknown-unknown, release, opt-level 2), i.e. the form in which the contracts run; the compiler and the SMT solvers are trusted",
    "storage starts with arbitrary content unless a harness states an invariant it assumes; keccak-256 is uninterpreted but injective (no collisions) and its digests do not hit small slot numbers",
    "ruint's 256-bit limb kernels (add, sub, mul, div, shift, compare) are replaced by their mathematical meaning through seams in a vendored copy (/verif/vendor/ruint); gas and memory limits are not modelled",
    "a call that returns an error reverts, so the state after an error is not constrained",
]
PROPS = []


def P(id, title, statement, over, q, why, files, mech, features, harnesses, **kw):
    d = dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech,
             features=features.split(), harnesses=harnesses.split() if isinstance(harnesses, str) else harnesses)
    d.update(kw)
    PROPS.append(d)


import importlib, os
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "propdefs"))):
    if _f.endswith(".py"):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "propdefs", _f)).read(), _f, "exec"))
BY_ID = {p["id"]: p for p in PROPS}
