class Variable(object):
    default_names = []
    cf_names = []
    _default_component_types = {'time': None, 'grid': None, 'depth': None}

    def __init__(self, name=None, units=None, time=None, data=None, grid=None,
                 depth=None, data_file=None, grid_file=None, dataset=None,
                 varname=None, fill_value=0, location=None, attributes=None,
                 **kwargs):
        self.units = units
        self.time = time
        self.data = data
        self.grid = grid
        self.depth = depth
        self.data_file = data_file
        self.grid_file = grid_file
        self.varname = varname
        self.fill_value = fill_value
        self.location = location
        if name is not None:
            self.name = name
        for k in ('surface_boundary_condition', 'bottom_boundary_condition'):
            kwargs.pop(k, None)

    def at(self, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no gridded variables")


class VectorVariable(object):
    default_names = []
    cf_names = []
    comp_order = []
    _default_component_types = {'time': None, 'grid': None, 'depth': None,
                                'variable': None}

    def __init__(self, name=None, units=None, time=None, variables=None,
                 grid=None, depth=None, grid_file=None, data_file=None,
                 dataset=None, varnames=None, **kwargs):
        self.units = units
        self.time = time
        self.variables = variables
        self.grid = grid
        self.depth = depth
        self.grid_file = grid_file
        self.data_file = data_file
        if name is not None:
            self.name = name

    def at(self, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no gridded variables")
