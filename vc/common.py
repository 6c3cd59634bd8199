BASE_ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real/complex arithmetic; overflow, rounding, NaN and signed zero are not modelled",
    "float literals that are the nearest double of a short decimal, a fraction with denominator <= 20000 or such a fraction times pi^k are read as that number",
    "values are defined: identities hold wherever no denominator vanishes",
    "jax.make_jaxpr extracts the program JAX runs; what the extraction drops: Python-level docstrings, static-argument branches other than those instantiated, XLA code generation",
]
TRUSTED_BASE = [
    "jax 0.6.1 tracing (make_jaxpr)", "vc/jx.py (semantics of jaxpr primitives)", "vc/norm.py + vc/poly.py (exact normaliser)",
    "z3 (python package of the tool venv)", "contracts and spec functions in props/ and vc/spec.py",
]
