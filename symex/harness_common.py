"""shared by the symbolic and the concrete side of a harness"""


class Common:
    def path(self, *parts):
        return "/".join((self.root,) + tuple(p for p in parts if p))


class Case:
    """one harness with its bounds.  reuse: the loaded package is kept between
    paths (pure functions); every/max_validate: how often a path's model is also
    run on the real code"""

    def __init__(self, name, fn, bounds="", reuse=False, every=50, max_validate=12,
                 prio=0, **params):
        self.name, self.fn, self.params, self.bounds = name, fn, params, bounds
        self.reuse, self.every, self.max_validate = reuse, every, max_validate
        self.prio = prio


def sbd_bdry(i, shape):
    """boundary maps stored next to a segmentation (not used by conversions)"""
    import numpy as np
    b = np.zeros(shape, np.uint8)
    b[i % shape[0], ::2] = 1
    return b
