import numpy as np
from . import flags as _f

MOMENTS_NAME_MAP = {"Mv": 0, "Mu": 1, "M1": 2, "M2": 3, "MT": 4, "MF": 5}


def fwhm_to_sigma(fwhm):
    return fwhm / 2.3548200450309493


def sigma_to_fwhm(sigma):
    return sigma * 2.3548200450309493


def fwhm_to_T(fwhm):
    sigma = fwhm_to_sigma(fwhm)
    return 2 * sigma**2


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T / 2))


def r50_to_sigma(r50):
    return r50 / np.sqrt(2 * np.log(2))


def sigma_to_T(sigma):
    return 2 * sigma**2


def get_ratio_var(a, b, var_a, var_b, cov_ab):
    if b == 0:
        raise ValueError("zero in denominator")
    rsq = (a / b)**2
    return rsq * (var_a / a**2 + var_b / b**2 - 2 * cov_ab / (a * b))


def get_ratio_error(a, b, var_a, var_b, cov_ab):
    if a == 0:
        var = var_a / b**2
    else:
        var = get_ratio_var(a, b, var_a, var_b, cov_ab)
    if var < 0:
        var = 0
    return np.sqrt(var)


def make_mom_result(sums, sums_cov, sums_norm=None):
    """fitting results from a set of moments sums [Mv, Mu, M1, M2, MT, MF]"""
    sums = np.array(sums, dtype="f8")
    sums_cov = np.array(sums_cov, dtype="f8")
    if sums.size != 6 or sums_cov.shape != (6, 6):
        raise ValueError(
            "You must pass exactly 6 moments and a 6x6 covariance")

    res = {
        "flags": 0, "flagstr": "",
        "flux_flags": 0, "flux_flagstr": "",
        "T_flags": 0, "T_flagstr": "",
        "sums": sums, "sums_cov": sums_cov,
        "sums_norm": sums_norm if sums_norm is not None else np.nan,
        "sums_err": np.full(6, np.nan),
        "flux": sums[5], "flux_err": np.nan,
        "T": np.nan, "T_err": np.nan,
        "s2n": np.nan,
        "e1": np.nan, "e2": np.nan,
        "e": np.array([np.nan, np.nan]),
        "e_err": np.array([np.nan, np.nan]),
        "e_cov": np.diag([np.nan, np.nan]),
        "pars": sums,
    }
    # flux only
    if sums_cov[5, 5] > 0:
        res["flux_err"] = np.sqrt(sums_cov[5, 5])
        res["s2n"] = res["flux"] / res["flux_err"]
    else:
        res["flux_flags"] |= _f.NONPOS_VAR

    # flux + T
    if sums_cov[4, 4] > 0 and sums_cov[5, 5] > 0:
        if res["flux"] > 0:
            res["T"] = sums[4] / sums[5]
            res["T_err"] = get_ratio_error(
                sums[4], sums[5], sums_cov[4, 4], sums_cov[5, 5],
                sums_cov[4, 5])
        else:
            res["T_flags"] |= _f.NONPOS_FLUX
    else:
        res["T_flags"] |= _f.NONPOS_VAR

    # everything
    if np.all(np.diagonal(sums_cov) > 0):
        res["sums_err"] = np.sqrt(np.diagonal(sums_cov))
    else:
        res["flags"] |= _f.NONPOS_VAR

    if res["flags"] == 0:
        if res["flux"] > 0:
            if res["T"] > 0:
                res["e1"] = sums[2] / sums[4]
                res["e2"] = sums[3] / sums[4]
                res["e"] = np.array([res["e1"], res["e2"]])
                e_err = np.array([
                    get_ratio_error(
                        sums[2], sums[4], sums_cov[2, 2], sums_cov[4, 4],
                        sums_cov[2, 4]),
                    get_ratio_error(
                        sums[3], sums[4], sums_cov[3, 3], sums_cov[4, 4],
                        sums_cov[3, 4]),
                ])
                if np.all(np.isfinite(e_err)):
                    res["e_err"] = e_err
                    res["e_cov"] = np.diag(e_err**2)
                else:
                    res["flags"] |= _f.NONPOS_SHAPE_VAR
            else:
                res["flags"] |= _f.NONPOS_SIZE
        else:
            res["flags"] |= _f.NONPOS_FLUX

    for pre in ("", "flux_", "T_"):
        res[pre + "flagstr"] = _f.get_flags_str(res[pre + "flags"])
    return res
