class DepthBase(object):
    _default_component_types = {'time': None, 'grid': None, 'variable': None}

    def __init__(self, surface_index=None, bottom_index=None, **kwargs):
        self.surface_index = surface_index
        self.bottom_index = bottom_index
        self.time = None

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no depth axes")


class L_Depth(DepthBase):
    pass


class S_Depth(DepthBase):
    pass


class ROMS_Depth(S_Depth):
    pass


class FVCOM_Depth(S_Depth):
    pass


class Depth(object):
    ld_types = []
    sd_types = []
    surf_types = []

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError
