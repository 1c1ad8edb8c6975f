NO_ATTEMPT = 2**0
CEN_SHIFT = 2**1
NONPOS_FLUX = 2**2
NONPOS_SIZE = 2**3
LOW_DET = 2**4
MAXITER = 2**5
NONPOS_VAR = 2**6
GMIX_RANGE_ERROR = 2**7
NONPOS_SHAPE_VAR = 2**8
LM_SINGULAR_MATRIX = 2**9
LM_NEG_COV_EIG = 2**10
LM_NEG_COV_DIAG = 2**11
EIG_NOTFINITE = 2**12
LM_FUNC_NOTFINITE = 2**13
DIV_ZERO = 2**14
ZERO_DOF = 2**15

NAME_MAP = {
    NO_ATTEMPT: "no attempt",
    CEN_SHIFT: "center shifted too far",
    NONPOS_FLUX: "flux <= 0",
    NONPOS_SIZE: "T <= 0",
    LOW_DET: "determinant near zero",
    MAXITER: "max iterations reached",
    NONPOS_VAR: "non-positive (definite) variance",
    GMIX_RANGE_ERROR: "GMixRangeError raised",
    NONPOS_SHAPE_VAR: "non-positive shape variance",
    LM_SINGULAR_MATRIX: "singular matrix in LM",
    LM_NEG_COV_EIG: "negative covariance eigenvalue in LM",
    LM_NEG_COV_DIAG: "negative covariance diagonal value in LM",
    EIG_NOTFINITE: "eigenvalue is not finite",
    LM_FUNC_NOTFINITE: "function not finite in LM",
    DIV_ZERO: "divide by zero",
    ZERO_DOF: "dof zero in LM",
}
for k, v in list(NAME_MAP.items()):
    NAME_MAP[v] = k
del k, v


def get_flags_str(val, name_map=None):
    if name_map is None:
        name_map = NAME_MAP
    v = int(__import__("numpy").asarray(val).ravel()[0])
    names = []
    for p in range(32):
        bit = 2**p
        if (v & bit) != 0:
            if bit in name_map:
                names.append(name_map[bit])
            else:
                names.append("bit 2**%d" % p)
    return "|".join(names)
