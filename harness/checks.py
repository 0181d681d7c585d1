"""The registry: property -> design configurations, driver, trace specification."""

TRUST = ["TLC, the JSON reader of the TLA+ community modules, and CPython/numpy",
         "the recorder (harness/pv.py) maps values to integers without loss, or to a value no clause accepts"]

CHECKS = {
    "C01": dict(driver="drv_models.c01", effort=4, need=["jf", "score", "bjf", "energy"],
                design=[("MCModels", "MCModels")], assumptions=TRUST),
    "C02": dict(driver="drv_models.c02", effort=4, need=["ind", "jfrel", "lossind", "lossrel"],
                design=[("MCModels", "MCModels")], assumptions=TRUST),
    "C03": dict(driver="drv_models.c03", effort=3, need=["raw", "rawu", "ce", "inf"],
                design=[("MaxProduct", "MaxProduct")], assumptions=TRUST),
    "C04": dict(driver="drv_models.c04", effort=3, need=["raw", "rawu", "sweeps", "rel", "laben", "legal", "relm"],
                design=[("MCModels", "MCModels"), ("Messages", "Messages"),
                        ("Messages", "MessagesBig", "thorough")], assumptions=TRUST),
    "C05": dict(driver="drv_models.c05", effort=4, need=["loss", "vloss", "bloss", "l2v"],
                design=[("MCModels", "MCModels")], assumptions=TRUST),
    "C06": dict(driver="drv_models.c06", effort=4, need=["aug", "augen"],
                design=[("MCModels", "MCModels")], assumptions=TRUST),
    "C07": dict(driver="drv_par.c07", need=["inf", "aug", "bloss", "fact", "step"],
                design=[("ParMap", "ParMap")], assumptions=TRUST),
    "C08": dict(driver="drv_models.c08", effort=1.5, need=["lat", "initlat", "l2v"],
                design=[("MCModels", "MCModels")], assumptions=TRUST),
    "C09": dict(driver="drv_cp.c09", effort=1.5, trace="TraceCP", need=["find", "iter", "end"],
                design=[("OneSlack", "OneSlack")], assumptions=TRUST),
    "C10": dict(driver="drv_cp.c10", effort=1.5, trace="TraceCP", need=["find", "iter", "end"],
                design=[("OneSlack", "OneSlack")], assumptions=TRUST),
    "C11": dict(driver="drv_cp.c11", trace="TraceCP", need=["find", "iter", "end", "restart"],
                design=[("OneSlack", "OneSlackCache"), ("OneSlack", "OneSlackPrune"),
                        ("OneSlack", "OneSlackPruneZero", "thorough")], assumptions=TRUST),
    "C12": dict(driver="drv_step.c12", effort=3, trace="TraceStep", need=["pred", "end"],
                design=[("Averaging", "Averaging"), ("Perceptron", "Perceptron")], assumptions=TRUST),
    "C13": dict(driver="drv_step.c13", effort=3, trace="TraceStep", need=["step", "epoch", "end"],
                design=[("Averaging", "Averaging")], assumptions=TRUST),
    "C14": dict(driver="drv_step.c14", effort=3, trace="TraceStep", need=["step", "check", "end"],
                design=[("Averaging", "Averaging"), ("FrankWolfe", "FrankWolfe"), ("FrankWolfe", "FrankWolfeLS")],
                assumptions=TRUST),
    "C15": dict(driver="drv_latent.c15", effort=1.5, need=["refit", "end", "step", "epoch", "score"],
                design=[("LatentAlternation", "LatentAlternation")], assumptions=TRUST),
    "C16": dict(driver="drv_life.c16", trace="TraceLife", need=["new", "op"],
                design=[("MCLifecycle", "MCLife_%s_3" % f) for f in ("resume", "keep", "opt", "fresh")] +
                       [("MCLifecycle", "MCLife_%s_4" % f, "thorough") for f in ("resume", "keep", "opt", "fresh")],
                assumptions=TRUST),
    "C17": dict(driver="drv_save.c17", trace="TraceSave", need=["save", "end", "fact"],
                design=[("SaveLogger", "SaveLogger"), ("SaveLogger", "SaveLoggerBig", "thorough")], assumptions=TRUST),
    "C18": dict(driver="drv_typed.c18", effort=3, need=["twin", "typedlab", "jf", "inf", "aug", "relm", "bjf"],
                design=[("MCTyped", "MCTyped"), ("MCTyped", "MCTypedBig", "thorough")], assumptions=TRUST),
    "C19": dict(driver="drv_typed.c19", need=["con", "inf"], design=[("MCLogic", "MCLogic")], assumptions=TRUST),
    "C20": dict(driver="drv_valid.c20", trace="TraceValid", need=["case"], design=[("MCValid", "MCValid")],
                assumptions=TRUST),
    "C21": dict(driver="drv_curve.c21", effort=1.5, trace="TraceCurves", need=["fit", "epochs", "score"],
                design=[("MCCurves", "MCCurves")], assumptions=TRUST),
    "C22": dict(driver="drv_frame.c22", effort=2, trace="TraceFrame", need=["call", "heap"], design=[("Frame", "Frame")],
                assumptions=TRUST),
    "C23": dict(driver="drv_data.c23", effort=2, trace="TraceDatasets", need=["shapes", "pattern", "letters", "fact"],
                design=[("MCDatasets", "MCDatasets"), ("MCDatasets", "MCDatasetsBig", "thorough")], assumptions=TRUST),
    "C24": dict(driver="drv_grid.c24", need=["lattice", "listfeat", "jf", "inf", "aug", "relm", "lat", "initlat", "near"],
                design=[("MCLattice", "MCLattice"), ("MCModels", "MCModels")], assumptions=TRUST),
    "C25": dict(driver="drv_stop.c25", need=["stop", "resumed", "restart", "end"],
                design=[("Interrupt", "Interrupt"), ("Interrupt", "InterruptBig", "thorough")], assumptions=TRUST),
    "C26": dict(driver="drv_base.c26", trace="TraceBase", need=["svm", "simplex", "exh", "primal", "sym"],
                design=[("MCBaseline", "MCBaseline"), ("MCBaseline", "MCBaselineBig", "thorough")], assumptions=TRUST),
    "C27": dict(driver="drv_plot.c27", trace="TracePlots", need=["plot", "grid"], design=[("MCPlots", "MCPlots")],
                assumptions=TRUST),
}
