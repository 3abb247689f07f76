"""Child of check C29: open pickled objects in a fresh process and answer
from them.  usage: c29_driver.py IN OUT   (PYTSPL_REPO, PYTHONPATH set)"""
import contextlib
import os
import pickle
import sys
import warnings

warnings.simplefilter("ignore")


def answers(box):
    """The same questions are asked in the parent and in the child."""
    import numpy as np

    sc, f = box["sc"], box["f"]
    out = {"nodes": list(map(int, sc.nodes)),
           "edges": [tuple(map(int, e)) for e in sc.edges],
           "triangles": [tuple(map(int, t)) for t in sc.triangles],
           "features": sc.get_edge_features()}
    for r in (1, 2):
        out[f"B{r}"] = sc.incidence_matrix(r).toarray()
    for r in (0, 1, 2):
        out[f"L{r}"] = sc.hodge_laplacian_matrix(r).toarray()
    for c in ("gradient", "curl", "harmonic"):
        out[c] = sc.get_component_flow(f, c, round_fig=False)
    out["shift"] = sc.apply_k_step_shifting(f, steps=2)
    for k, flt in enumerate(box["filters"]):
        for key, v in flt.history.items():
            out[f"history {k} {key}"] = None if v is None or isinstance(
                v, dict) else np.array(v, float)
        out[f"operator {k}"] = np.asarray(flt.get_p_matrix("L1U").toarray())
    if "model" in box:
        import torch

        torch.set_num_threads(1)
        model, lik, xs = box["model"]
        model.eval()
        lik.eval()
        with torch.no_grad():
            p = lik(model(torch.tensor(xs)))
            out["mean"], out["variance"] = (p.mean.numpy().copy(),
                                            p.variance.numpy().copy())
        out["state"] = {k: v.detach().numpy().copy()
                        for k, v in model.state_dict().items()}
    return out


if __name__ == "__main__":
    repo = os.environ.get("PYTSPL_REPO", "/repo")
    sys.path.insert(0, repo)
    import pytspl

    assert os.path.realpath(pytspl.__file__).startswith(
        os.path.realpath(repo))
    with open(sys.argv[1], "rb") as fh:
        box = pickle.load(fh)
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        res = answers(box)
    with open(sys.argv[2], "wb") as fh:
        pickle.dump(res, fh)
