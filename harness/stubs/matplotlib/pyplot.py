import matplotlib


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return matplotlib.Thing(name)
