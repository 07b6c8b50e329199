"""A stand-in for matplotlib: accepts everything, draws nothing, and records
the heights given to bar() and the names given to savefig()."""
import json
import os


class Thing:
    def __init__(self, name=""):
        self._name = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Thing(name)

    def __call__(self, *args, **kw):
        if self._name in ("bar", "barh"):
            for k, v in enumerate(list(args) + [kw.get("height")]):
                if k >= 1 and hasattr(v, "__len__") and not isinstance(v, str):
                    note({"bar": [float(x) for x in v]})
                    break
        elif self._name == "savefig":
            note({"save": str((list(args) + [kw.get("fname")])[0])})
        elif self._name == "subplots":
            return Thing("fig"), Thing("ax")
        return Thing()

    def __getitem__(self, k):
        return Thing()

    def __iter__(self):
        return iter([Thing()])

    def __len__(self):
        return 1


def note(x):
    with open(os.environ["PLOT_LOG"], "a") as f:
        f.write(json.dumps(x) + "\n")


def use(*args, **kw):
    pass


pyplot = Thing("pyplot")
cm = Thing("cm")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return Thing(name)
