from . import cbook


class MatplotlibDeprecationWarning(DeprecationWarning):
    pass
