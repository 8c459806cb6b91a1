import numpy as np


def get_dataset(ncfile, dataset=None):
    import netCDF4 as nc4
    if dataset is not None:
        return dataset
    if isinstance(ncfile, nc4.Dataset):
        return ncfile
    return nc4.Dataset(ncfile)


def _reorganize_spatial_data(points):
    if points is None:
        return None
    points = np.asarray(points, dtype=np.float64)
    if points.ndim == 1:
        points = points.reshape(1, -1)
    if points.shape[1] in (2, 3) and points.shape[0] not in (2, 3):
        return points
    if points.shape[1] in (2, 3):
        return points
    return points.T


def _align_results_to_spatial_data(result, points):
    points = np.asarray(points)
    if points.ndim == 1:
        return result
    if points.shape[1] in (2, 3):
        return result
    return result.T


def gen_celltree_mask_from_center_mask(*args, **kwargs):
    raise NotImplementedError


def convert_mask_to_numpy_mask(*args, **kwargs):
    raise NotImplementedError
