import numpy as np


def get_image_info_dtype(path_len, image_id_len=None, wcs_len=None,
                         ext_len=None, extra_dtype=None):
    fmt = "U%d" % path_len
    return [
        ("image_path", fmt), ("image_ext", "i2"), ("weight_path", fmt),
        ("weight_ext", "i2"), ("bmask_path", fmt), ("bmask_ext", "i2"),
        ("image_id", "i8"), ("image_flags", "i8"), ("magzp", "f4"),
        ("scale", "f4"), ("position_offset", "f8"),
    ] + list(extra_dtype or [])


def get_image_info_struct(nimage, path_len, image_id_len=None, wcs_len=None,
                          ext_len=None, extra_dtype=None):
    data = np.zeros(nimage, dtype=get_image_info_dtype(
        path_len, extra_dtype=extra_dtype))
    data["scale"] = 1.0
    return data
