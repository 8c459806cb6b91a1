import datetime
import numpy as np


class OutOfTimeRangeError(ValueError):
    pass


class Time(object):
    _const_time = None

    def __init__(self, data=None, filename=None, varname=None, tz_offset=None,
                 tz_offset_name=None, origin=None,
                 displacement=datetime.timedelta(seconds=0), *args, **kwargs):
        if data is None:
            data = np.array([datetime.datetime.now()])
        if isinstance(data, Time):
            data = data.data
        self.data = np.array(data, dtype=object) if not isinstance(data, np.ndarray) else data
        if origin is not None:
            self.data = self.data - (self.data[0] - origin)
        if displacement:
            self.data = self.data + displacement
        self.filename = filename
        self.varname = varname
        self.tz_offset = tz_offset
        self.tz_offset_name = tz_offset_name
        super().__init__(*args, **kwargs)

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF time axes")

    @classmethod
    def constant_time(cls):
        if cls._const_time is None:
            cls._const_time = cls(data=np.array([datetime.datetime(2000, 1, 1)], dtype=object))
        return cls._const_time

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, data):
        data = np.asarray(data)
        if data.dtype.kind == 'M':
            data = data.astype('datetime64[us]').astype(object)
        for a, b in zip(data[:-1], data[1:]):
            if b < a:
                raise ValueError("Time sequence is not ascending")
        for a, b in zip(data[:-1], data[1:]):
            if b == a:
                raise ValueError("Time sequence has duplicate entries")
        self._data = data

    @property
    def info(self):
        return repr(self.data)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __eq__(self, other):
        r = self.data == other.data
        return bool(np.all(r))

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__

    @property
    def min_time(self):
        return self.data[0]

    @property
    def max_time(self):
        return self.data[-1]

    def get_time_array(self):
        return self.data[:]

    def time_in_bounds(self, time):
        return not (time < self.min_time or time > self.max_time)

    def valid_time(self, time):
        if time < self.min_time or time > self.max_time:
            raise OutOfTimeRangeError(
                'time specified ({0}) is not within the bounds of the time '
                '({1} to {2})'.format(time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(time)
        return int(np.searchsorted(self.data, time))

    def interp_alpha(self, time, extrapolate=False):
        if not (len(self.data) == 1 or extrapolate):
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 > len(self.data) - 1:
            i0 = len(self.data) - 1
        if i0 == 0:
            return 0
        t0 = self.data[i0 - 1]
        t1 = self.data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()
