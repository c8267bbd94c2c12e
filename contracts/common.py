"""Shared stand-ins for callee contracts."""


class Collection:
    """a material collection by its contract (C11): names, one permittivity row per material, lookup by name"""

    def __init__(self, c, m, nf, name="mat", eps=None):
        self.N_materials = m
        self.epsilon_matrix = eps if eps is not None else c.tensor(name, [m, nf], kind="c")
        self.material_names = c.seq(m, (lambda i: i) if c.symbolic else (lambda i: "m%d" % i))
        self._c = c

    def row(self, i):
        return self.epsilon_matrix[i]

    def __getitem__(self, key):
        if self._c.symbolic:
            return self.epsilon_matrix[key]
        return self.epsilon_matrix[self.material_names.index(key)]


def cabs(c, z):
    return c.sqrt(c.re(z) * c.re(z) + c.im(z) * c.im(z))
