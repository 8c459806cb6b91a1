class _G(object):
    def __init__(self, *args, **kwargs):
        for k, v in kwargs.items():
            if not k.startswith('use_'):
                try:
                    setattr(self, k, v)
                except AttributeError:
                    pass

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no grids")


class Grid_U(_G):
    pass


class Grid_S(_G):
    pass


class Grid_R(_G):
    pass


class Grid(object):
    @staticmethod
    def from_netCDF(*args, **kwargs):
        raise NotImplementedError("gridded stand-in: no grids")

    @staticmethod
    def _load_grid(*args, **kwargs):
        raise NotImplementedError

    @staticmethod
    def _get_grid_type(*args, **kwargs):
        raise NotImplementedError
