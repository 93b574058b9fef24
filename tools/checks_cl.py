"""O01 (clcheck.py), O03 (kernels.py)."""
from clcheck import CHECKS as A
from kernels import CHECKS as B
CHECKS = dict(A, **B)
