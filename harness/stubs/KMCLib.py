"""Recording stand-in for the KMCLib C++/Python package (not installed here).

Every class only records the keyword arguments it was built with, so that what
SCAKS hands to KMCLib can be observed.  Part of the trusted base of the KMC
properties (C20-C23, C32).
"""


class _Record(object):
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs

    def _script(self, name="obj"):
        return "{} = {!r}\n".format(name, sorted(self.kwargs))


class KMCProcess(_Record):
    pass


class KMCUnitCell(_Record):
    pass


class KMCLattice(_Record):
    pass


class KMCSitesMap(_Record):
    pass


class KMCConfiguration(_Record):
    def types(self):
        return self.kwargs["types"]


class KMCInteractions(_Record):
    pass


class KMCLatticeModel(_Record):
    def run(self, *args, **kwargs):
        self.run_kwargs = kwargs


class KMCControlParameters(_Record):
    pass


class KMCAnalysisPlugin(object):
    def __init__(self, *args, **kwargs):
        pass
