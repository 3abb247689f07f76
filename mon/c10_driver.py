"""Child of check C10: load datasets from a scratch copy of the library whose
data folder was generated.  usage: c10_driver.py SCRATCH OUT NAME..."""
import contextlib
import os
import pickle
import shutil
import sys
import warnings

warnings.simplefilter("ignore")
scratch, out, names = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.path.insert(0, scratch)
import pytspl  # noqa
from pytspl.io import dataset_loader as dl  # noqa

assert os.path.realpath(pytspl.__file__).startswith(os.path.realpath(scratch))


def plain(x):
    return x.item() if hasattr(x, "item") else x


res = {}
with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
    res["__list__"] = sorted(dl.list_datasets())
    later = os.path.join(scratch, "later")
    todo = [(n, n) for n in names] + [
        (n, n + "#later") for n in names
        if os.path.isdir(os.path.join(later, n))]
    for n, key in todo:
        if key != n:  # the folder has other files by now
            folder = os.path.join(scratch, "pytspl", "data",
                                  "transportation_networks", n)
            for x in os.listdir(folder):
                os.unlink(os.path.join(folder, x))
            for x in os.listdir(os.path.join(later, n)):
                shutil.copy(os.path.join(later, n, x), folder)
        try:
            sc, coords, flow = dl.load_dataset(n)
            res[key] = dict(
                nodes=[int(v) for v in sc.nodes],
                edges=[tuple(map(int, e)) for e in sc.edges],
                tris=[tuple(map(int, t)) for t in sc.triangles],
                B1=sc.incidence_matrix(1).toarray(),
                B2=sc.incidence_matrix(2).toarray(),
                features={tuple(map(int, e)): {k: plain(v)
                                               for k, v in d.items()}
                          for e, d in sc.edge_features.items()},
                coords={int(k): tuple(float(x) for x in v)
                        for k, v in coords.items()},
                flow=[(tuple(map(int, e)), float(v))
                      for e, v in flow.items()] if isinstance(flow, dict)
                else ("not a dict", type(flow).__name__))
        except Exception as e:
            res[key] = f"{type(e).__name__}: {e}"
    for bad in ("no-such-dataset", "", "Paper"):
        try:
            dl.load_dataset(bad)
            res["bad:" + bad] = "accepted"
        except ValueError:
            res["bad:" + bad] = "ValueError"
        except Exception as e:
            res["bad:" + bad] = f"{type(e).__name__}: {e}"
with open(out, "wb") as fh:
    pickle.dump(res, fh)
