from ..verify import REG
from . import arith, utils, structured, forms, bivariate, linear, helpers, mult, matalg, bases, displ, determ, kernel, crt, multipoint, batch, linsys, plaininv, kron, transform, collapse, convs, circ
from ..alg import AREG
from ..hoare import HREG
ALL = REG.all + AREG.all + HREG.all
