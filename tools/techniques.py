DEFAULT_NOTE = (
    "Held on every execution observed in the run (counts in the evidence "
    "file); trusts numpy/scipy and the reference computations in mon/, which "
    "share no code with the library.")


def _t(text, note=None):
    return "runtime monitoring: " + text, (
        DEFAULT_NOTE + (" " + note if note else ""))


TECHNIQUES = {
 "C01": _t("online oracle over every incidence query, exact integer matrices, orientations of small complexes enumerated"),
 "C02": _t("online oracle over every Laplacian/adjacency query, exact products and exact ranks"),
 "C03": _t("online oracle over builder runs against an independent clique and threshold table"),
 "C04": _t("online oracle over decompositions: projections from exact incidence matrices, linearity and idempotence by further runs"),
 "C05": _t("online oracle over divergence, curl and shifting, edge-by-edge sums and exact powers"),
 "C06": _t("online oracle over eigenpairs: residuals, orthonormality, exact dimensions and spans", "Complexes with a non-zero eigenvalue below 4e-3 are not generated."),
 "C07": _t("metamorphic monitor over pairs of executions on two encodings of one complex"),
 "C08": _t("conservation oracle over file readers: every row written by the harness is accounted for once"),
 "C09": _t("round-trip oracle over generated incidence matrix files"),
 "C10": _t("conservation oracle over generated dataset folders, loaded by the current sources in a child process"),
 "C11": _t("differential oracle over all shipped datasets with an independent reading of their files", "lastfm-1k-artist cannot be loaded: its triangle file is not in the repository."),
 "C12": _t("repeatability monitor over histories and fresh processes, validity oracle on every generated complex"),
 "C13": _t("history monitor: every record compared with itself, its arguments, a fresh object, and all earlier records by digest", "Chebyshev runs use a stand-in for the absent chebpy."),
 "C14": _t("online oracle over denoising runs: normal equations, objective at perturbed points, exact spectra"),
 "C15": _t("online oracle over filter runs: independent least-squares fit on exact spectra", "Fits conditioned worse than 1e12 are not judged."),
 "C16": _t("online oracle over filter runs: independent fit over the grid, range of the eigenvalue estimate", "Fits conditioned worse than 1e12 are not judged."),
 "C17": _t("online oracle over recurrences and applications: spectral evaluation of the series", "chebpy is absent; a stand-in is used for whole applications."),
 "C18": _t("online oracle over trend filter runs: inversion of the estimate, noise power, dual certificates of optimality", "Runs in which the external solver reports failure are not judged."),
 "C19": _t("online oracle over kernel evaluations: dense spectral covariance, rotated eigenbases, both precisions"),
 "C20": _t("conservation oracle over histories of splits: every edge once, every target with its own edge"),
 "C21": _t("online oracle over predictions and training: dense Gaussian conditioning, replayed optimisation in double precision", "Runs that amplify single-precision rounding are not judged."),
 "C22": _t("state monitor on matplotlib artists matched one-to-one with simplices and values"),
 "C23": _t("event-log monitor over random histories and threads with a 1 us switch interval: digests of arguments, complexes, generators, warning state; repeated requests compared"),
 "C24": _t("fault-injecting histories: invalid requests between valid ones, state digests, later answers compared with fresh objects"),
 "C25": _t("online oracle over mask queries: exact multiplicities per part"),
 "C26": _t("state monitor on the figures of filter plots against the record and exact spectra", "chebpy is absent; a stand-in is used."),
 "C27": _t("metamorphic monitor over calls: the same arguments by name, by position and left out, with results, histories and rendered pixels compared", "Defaults and order are those documented at the pinned commit."),
 "C29": _t("differential monitor over histories on originals and their copies (deep copies, pickles, fresh processes, state dictionaries): answers, records, parameters, further training"),
 "C28": _t("trace monitor on standard output: printed lines parsed and matched with records, returned posteriors and recomputed losses and metrics", "Metrics that single precision cannot tell are not judged."),
}
