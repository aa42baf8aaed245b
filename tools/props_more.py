PURE = ("a pure function of its input: no schedule, clock, I/O, fault or history in it, so there is nothing for a "
        "simulator to control")


def pure(id, title, statement, files, why_tests="The tests sample a handful of points."):
    prop(id, title, statement, ["inputs"], "all parameters and evaluation points", why_tests, files,
         [("formula", files[0])], ["returned values"], na=PURE)


pure("N01", "Copula distribution functions satisfy the copula axioms",
     "Every copula's distribution function is grounded, has uniform margins, is d-increasing and lies between the "
     "Frechet-Hoeffding bounds.",
     ["archimedean/abstract.py", "elliptical/gaussian.py", "empirical/empirical.py"])
pure("N02", "Densities agree with distribution functions and with their logarithms",
     "A copula's density integrates to its distribution function, and the log variants are the logarithms of the plain "
     "ones.", ["archimedean/clayton.py", "archimedean/frank.py", "archimedean/gumbel.py", "elliptical/student.py"])
pure("N03", "Rank correlation inversions are inverses",
     "Converting a parameter to Kendall's tau or Spearman's rho and back returns the parameter.",
     ["archimedean/abstract.py", "elliptical/abstract.py"])
pure("N04", "Generators and their inverses and derivatives agree",
     "The generator and the inverse generator of an Archimedean copula invert each other, and the derivatives given are "
     "theirs.", ["archimedean/clayton.py", "archimedean/gumbel.py", "archimedean/frank.py"])
pure("N05", "Pseudo observations are scaled ranks",
     "Pseudo observations are the ranks of each column, under the requested treatment of ties, divided by the number of "
     "rows plus one.", ["core/misc.py"])
pure("N06", "Tail dependence coefficients are the limits of the copula",
     "The tail dependence coefficients of a copula are the limits of its distribution function in the corners.",
     ["elliptical/student.py", "archimedean/gumbel.py"])
pure("N07", "Correlation with missing values uses the rows it should",
     "A correlation matrix is computed from exactly the rows that the requested treatment of missing values leaves.",
     ["stats/correlation.py"])
pure("N08", "Special functions are accurate",
     "The special functions agree with their mathematical definitions to their stated accuracy.",
     ["special/_specfunc.pyx", "special/special_func.py"])
pure("N09", "A converged maximum likelihood fit is an optimum",
     "The parameters of a converged maximum likelihood fit have a likelihood at least as high as any others near them.",
     ["copula/estimator/max_likelihood.py"])
pure("N10", "Marginal copulas compose margins and dependence",
     "The distribution function and density of a marginal copula are those of the inner copula at the margins' "
     "probabilities, times the margins' densities.", ["marginal/marginal.py"])
pure("N11", "Stable distribution density and distribution function are accurate",
     "The skew stable distribution's functions agree with its characteristic function.", ["stats/stable/stable.py"])

prop("C11", "Threaded special functions equal their unthreaded and one-at-a-time values",
     "The Clausen, Debye and dilogarithm functions, real and complex, return for every array the values, the shape and "
     "the order that they return unthreaded and that they return for each element alone, whatever the number of threads "
     "and the way the threads are scheduled, and leave their input unchanged. The same holds for the Frank copula and "
     "the polylogarithm, which are built on them.",
     ["schedules", "inputs", "configurations"],
     "all team sizes and all interleavings of memory accesses; inputs of any size, layout and range",
     "The tests call each function once, on the machine's own schedule; a data race or a wrong split of the work shows "
     "only for some sizes, team sizes and interleavings.",
     ["special/_specfunc.pyx", "special/clausen.py", "special/debye.py", "special/dilog.py"],
     [("parallel loops", "special/_specfunc.pyx")],
     ["returned arrays"],
     "deterministic simulation of the OpenMP runtime: real threads, one at a time, switched by a seeded scheduler at any "
     "memory access of a parallel region; differential oracle against the unthreaded evaluation",
     note="seeded search over schedules; sequentially consistent memory; schedules that gcc's instrumentation can show")

prop("C04", "A seeded draw is a function of copula, size and seed alone",
     "The rows that a copula draws for a seed depend on its parameters, the number of rows and the seed only: not on "
     "what was drawn, fitted or evaluated before, nor on the process-wide random state or on others that use it during "
     "the draw. A seeded draw, finished or interrupted, leaves the process-wide random state exactly as it was. A draw "
     "without a seed is a function of the process-wide random state, and advances it.",
     ["histories", "inputs", "fault_sequences"],
     "all copulas, dimensions, parameters, sizes and seeds; all histories; interference and interrupts at any line",
     "The tests draw once per copula from a fixed seed and look at the shape; they never draw while somebody else uses "
     "the generator.",
     ["copula/base.py", "stats/uniform.py", "archimedean/clayton.py", "archimedean/frank.py", "archimedean/gumbel.py",
      "elliptical/gaussian.py", "elliptical/student.py", "stats/_multivariate_t.py", "stats/stable/stable.py",
      "mixtures/gmc/random.py", "empirical/empirical.py", "indep/indep.py", "marginal/marginal.py"],
     [("random streams", "stats/uniform.py")],
     ["results of random", "numpy's and Python's process-wide generators"],
     "deterministic simulation of the other users of the process-wide generator, which strike at seeded lines of the "
     "library during a draw; differential oracle in a process without history",
     note="seeded search over histories; interference between lines of Python code")

prop("C05", "The library and its callers do not share mutable data",
     "No call, whether it returns, raises or is interrupted, changes an array, frame, list, dictionary or parameter "
     "object that the caller passed in. Once a call has returned, writing over what was passed to it, or over a sample "
     "or value computed by it, changes nothing that can be seen of any copula, and no later call on any copula changes "
     "a value, summary or fit report handed out before.",
     ["histories", "inputs", "fault_sequences"],
     "all operations of all copulas and of the functions of the library; arrays of all layouts, frames, lists; all "
     "histories of calls and of writes in between; interrupts at any line",
     "The tests build fresh inputs for each call and do not look at them afterwards.",
     ["elliptical/abstract.py", "elliptical/student.py", "mixtures/gmc/parameter.py", "empirical/empirical.py",
      "marginal/marginal.py", "copula/estimator/estimator.py", "special/_specfunc.pyx", "archimedean/clayton.py",
      "copula/summary.py", "core/misc.py"],
     [("own copies of parameters", "elliptical/abstract.py"), ("options of the caller", "copula/estimator/estimator.py")],
     ["the caller's objects", "what can be seen of every copula"],
     "deterministic simulation of the caller between and during calls (writes over shared objects, interrupts at seeded "
     "lines), all objects on both sides compared after every step",
     note="a copula passed to a marginal copula is shared by design; plain functions may return their argument")

prop("C06", "A fit that does not complete leaves the copula as it was",
     "If a fit raises, for invalid input or because the optimizer, the caller's callback or the output stream fails or "
     "an interrupt strikes at any moment, the copula is afterwards as it was before the fit, parameters, labels, fit "
     "report and inner copula included, or is completely fitted. A fault is never swallowed into a result that the fit "
     "without it would not have given. The same fit tried again gives the result that it gives without the fault.",
     ["fault_sequences", "inputs", "histories"],
     "all copulas that can be fitted, all methods and options; faults at any line, evaluation or callback; all earlier "
     "fits",
     "The tests only fit valid data without faults, so a half fitted copula never arises.",
     ["copula/base.py", "copula/estimator/max_likelihood.py", "copula/estimator/corr_inversion.py",
      "copula/estimator/estimator.py", "marginal/marginal.py", "mixtures/gmc/gmc.py", "elliptical/student.py"],
     [("all or nothing", "copula/base.py")],
     ["what can be seen of the copula before and after"],
     "deterministic simulation with faults injected at seeded lines, optimizer calls, callbacks and writes; refinement "
     "against the states before and after the fault-free fit",
     note="seeded search; interrupts between lines of Python code; ML fits are compared up to flat likelihood")

prop("C07", "A copula's answers depend only on its own parameters and history",
     "Every answer of a copula and of the library's functions is the one that a new process gives in which nothing else "
     "has been used: other copulas, functions, failed and interrupted calls do not matter. Values, densities, samples "
     "and dependence measures are those of a newly made copula with the same parameters. A fit whose method does not "
     "build on the copula's parameters gives the result that it gives on a new copula.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of operations on any number of copulas and of function calls, with interrupts at any line",
     "The tests make a new copula for nearly every assertion, so stale or shared state never shows.",
     ["copula/base.py", "elliptical/abstract.py", "elliptical/student.py", "archimedean/abstract.py",
      "empirical/empirical.py", "marginal/marginal.py", "mixtures/gmc/gmc.py", "utility/annotations/reshape.py",
      "special/_specfunc.pyx"],
     [("state of a copula", "copula/base.py")],
     ["every returned value", "parameters and reports after fits"],
     "deterministic simulation of operation histories with interrupts; each outcome compared with runs of the projected "
     "history, and of a reconstructed copula, in processes without history",
     note="seeded search over histories; labels of frames follow the last fit")

prop("C08", "The correlation matrix of an elliptical copula is valid after every edit",
     "After every sequence of edits of single correlations, rows, columns or the whole matrix, accepted, rejected or "
     "interrupted, an elliptical copula's matrix is finite, symmetric, positive semidefinite and has ones on its "
     "diagonal, and its indexed entries and parameters agree with it. A valid edit whose matrix is positive "
     "semidefinite is carried out exactly, one whose matrix is not gives a nearby matrix that is; a rejected or "
     "interrupted edit changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all dimensions, index forms and values, of all numeric types; all sequences of edits; interrupts at any line",
     "The tests set a few entries once; they do not edit a matrix that was edited before, or fail half way.",
     ["elliptical/abstract.py", "core/linalg.py", "core/misc.py"],
     [("correlation edits", "elliptical/abstract.py")],
     ["sigma, parameters, indexed values"],
     "deterministic simulation of edit sequences with interrupts at seeded lines; invariants after every step and a "
     "small reference model of the matrix",
     note="seeded search over edit sequences in two to five dimensions")

prop("C12", "A fit report tells what the optimizer did and what the copula now is",
     "After a maximum likelihood fit whose optimizer reports success, the copula's and the report's parameters are "
     "those that the optimizer returned, whichever points it tried and in whatever order, and whatever array it passed "
     "them in; if it reports failure, the report's parameters are nan. Every successful report, of the inversion methods "
     "too, gives the sample size, the method and the unscaled log likelihood of the fitted data under its parameters. A "
     "request to fix the degrees of freedom pins those of the copula at hand, in addition to the caller's constraints.",
     ["schedules", "inputs", "histories"],
     "all behaviours of the optimizer; all copulas, options and data; several fits of a copula, other fits in between",
     "The tests use scipy's optimizers on well behaved data, where the last point tried is nearly the optimum.",
     ["copula/estimator/max_likelihood.py", "copula/estimator/corr_inversion.py", "copula/estimator/summary.py",
      "copula/estimator/estimator.py", "elliptical/student.py", "marginal/marginal.py"],
     [("fit reports", "copula/estimator/summary.py")],
     ["fit reports and parameters"],
     "deterministic simulation of the optimizer (seeded points, reuse of its buffer, outcome, nested fits), reports "
     "checked against a recomputation in a process without history",
     note="seeded search; that an optimizer's point is an optimum is not claimed (N09)")

prop("C17", "A copula survives being pickled, copied and carried over to another process",
     "At any point of its history a copula can be pickled and copied. The copy, in this process or restored in a new "
     "one after the original's process is gone, shows the same parameters, report, labels and draws, and answers every "
     "further operation as the original would have. Original and copy are independent.",
     ["crash_points", "histories", "configurations"],
     "all copulas, pickle protocols and histories before and after the copy",
     "The tests never pickle a copula.",
     ["copula/base.py", "elliptical/student.py", "empirical/empirical.py", "marginal/marginal.py",
      "mixtures/gmc/parameter.py", "copula/estimator/summary.py"],
     [("picklable state", "copula/base.py")],
     ["what can be seen of the copula in either process"],
     "deterministic simulation of process death at a seeded point of the history, with only pickled state surviving; "
     "refinement against the process that did not die",
     note="seeded search over histories; processes die between operations")

prop("C09", "Using the library leaves the rest of the process as it was",
     "Importing the library or calling it, whether the call returns, raises or is interrupted, leaves the process as it "
     "was: random generators (unless the call is documented to draw from them), floating point error handling, warning "
     "filters, print and pandas options, environment, working directory, signal handlers, streams, open files, threads "
     "and other libraries' functions; quiet calls print nothing. Nor do these settings influence the numbers that the "
     "library returns.",
     ["histories", "fault_sequences", "configurations"],
     "all operations, under all settings of the process; interrupts at any line",
     "The tests never look at the process around a call, and never call under other settings than the usual ones.",
     ["archimedean/_shared.py", "archimedean/gumbel.py", "archimedean/frank.py", "stats/log.py", "copula/base.py",
      "gof/exchangeability.py", "stats/uniform.py", "stats/_multivariate_t.py", "datasets/base.py",
      "mixtures/gmc/estimators/em.py"],
     [("temporary settings", "archimedean/_shared.py"), ("own random streams", "stats/uniform.py")],
     ["the process's settings and generators before and after each call"],
     "deterministic simulation of the process around the library (seeded settings, interrupts at seeded lines); all "
     "settings compared around every call, numbers compared with a process with the usual settings",
     note="seeded search over settings and histories; settings reachable from Python")

prop("C10", "A dataset is loaded completely or not at all",
     "A dataset load returns exactly the rows, columns and labels of the data file, computed to returns where asked "
     "for, or raises: it never returns part of the data, whatever opening or reading the file fails with, however few "
     "bytes a read returns and whatever else is loaded meanwhile. A failed load leaves no file open and does not affect "
     "later loads. Frames handed out before and what their owners do to them have no influence on later loads.",
     ["fault_sequences", "histories", "schedules"],
     "all failures of opens and reads at any point; all sequences of loads and of writes to the frames",
     "The tests load each dataset once from a good disk and look at the shape.",
     ["datasets/base.py"],
     [("file loading", "datasets/base.py")],
     ["frames returned", "open files"],
     "deterministic simulation of the disk under the loaders, with I/O faults and overlapping loads; compared with an "
     "independent reading of the files",
     note="seeded search; truncated files are indistinguishable from good ones and not claimed")

prop("C13", "Samples have the copula's distribution, however they are drawn",
     "A draw has the requested number of rows and one column per dimension, and all its entries are numbers in the unit "
     "interval, or in the support of the margins, whatever the random generator delivers. Rows drawn at once, in "
     "several draws, or one by one for different seeds, and after any changes of the copula, are independent, have "
     "uniform margins (or the copula's own) and the dependence of the copula's current distribution function.",
     ["inputs", "histories"],
     "all copulas, parameters of moderate size, generator streams, splits of a sample into draws, and changes before",
     "The tests look at the shape of a draw or at one correlation; they do not compare a sample with the distribution "
     "function, nor draw from unlikely streams.",
     ["archimedean/clayton.py", "archimedean/frank.py", "archimedean/gumbel.py", "elliptical/gaussian.py",
      "elliptical/student.py", "stats/_multivariate_t.py", "stats/stable/stable.py", "stats/uniform.py",
      "mixtures/gmc/random.py", "empirical/empirical.py", "marginal/marginal.py", "indep/indep.py",
      "special/special_func.py"],
     [("samplers", "archimedean/frank.py")],
     ["results of random"],
     "deterministic simulation of the random generator (ordinary and extreme streams, splits into draws and seeds); "
     "samples compared with independently computed distribution functions at significance 1e-10",
     note="seeded search; a bias smaller than a sample of 4000 rows can show stays unseen")

prop("C14", "A mixture fit gives valid parameters and reports what they achieve",
     "A completed fit of the mixture copula gives weights that sum to one, finite means and valid covariance matrices, "
     "and reports exactly the likelihood they achieve on the fitted data, which for expectation maximization under the "
     "copula criteria is never below that of the start nor that of a fit stopped earlier. A fit from a given start uses "
     "no random numbers, and neither earlier fits nor the order of rows, columns or clusters change it. A clustering's "
     "components add up to the data, and a numerical optimization ends at the optimizer's point.",
     ["inputs", "histories", "schedules"],
     "all methods, criteria, starts and stopping rules; all outcomes of the clustering and the optimizer; earlier fits",
     "The tests fit one dataset from one start and compare with stored numbers or only look at types.",
     ["mixtures/gmc/gmc.py", "mixtures/gmc/estimators/em.py", "mixtures/gmc/estimators/kmeans.py",
      "mixtures/gmc/estimators/sgd.py", "mixtures/gmc/loglik.py", "mixtures/gmc/marginals.py",
      "mixtures/gmc/parameter.py"],
     [("expectation maximization", "mixtures/gmc/estimators/em.py")],
     ["parameters and reports after fits"],
     "deterministic simulation of the clustering, the optimizer and the random state under the fits; reports and levels "
     "recomputed in a new process, metamorphic and refinement checks between simulated runs",
     note="seeded search; small samples and few iterations")

prop("C15", "Threads get the answers that they would get alone",
     "When several threads of a process use the library, each with its own copulas, and evaluate copulas that they "
     "share, every call in every thread gives what it gives when the thread runs alone, however the threads are "
     "scheduled: draws with a seed, fits, edits, functions and dataset loads included. Afterwards each copula is as "
     "its thread alone would have left it, shared copulas are unchanged and so is the rest of the process.",
     ["schedules", "histories"],
     "all switches between threads at any line or bytecode of the library; all operations in two to four threads",
     "The tests use one thread; a cache or setting shared by all calls is harmless there.",
     ["archimedean/_shared.py", "archimedean/frank.py", "archimedean/gumbel.py", "elliptical/student.py",
      "stats/log.py", "copula/estimator/max_likelihood.py", "datasets/base.py", "gof/exchangeability.py",
      "marginal/marginal.py", "mixtures/gmc/gmc.py", "utility/annotations/reshape.py"],
     [("temporary settings", "stats/log.py"), ("estimation state", "copula/base.py")],
     ["results of calls in each thread", "visible state of copulas after them"],
     "deterministic simulation of the thread scheduler (real threads parked at every line or bytecode, seeded switch "
     "schedule), compared with each thread run alone in a new process",
     note="seeded search over schedules; no switches inside compiled code; draws from the global generator left out")

prop("C16", "A symmetry test's p-value is that of its null distribution",
     "The tests of radial symmetry and of exchangeability report the statistic of the ranked data, and a p-value "
     "(k + 0.5) / (N + 1) in which each of N independent replicates counts as in the stated null distribution: every "
     "observation reflected or swapped with probability one half, given the ties of the data, or the multiplier process "
     "where there are none. The latter and all statistics depend on data and options alone; the data and the "
     "process-wide random state stay as they were, and earlier and interrupted tests do not matter.",
     ["inputs", "histories"],
     "all data with and without ties, grids and numbers of replicates; all streams of the C library's generator, and "
     "what was done before",
     "The tests compare the p-value of one dataset with a wide interval.",
     ["gof/radial_symmetry.py", "gof/exchangeability.py", "gof/_radial_symmetry.pyx", "gof/_exchangeability.pyx",
      "core/misc.py"],
     [("replicates", "gof/_radial_symmetry.pyx"), ("multiplier process", "gof/_exchangeability.pyx")],
     ["results of rad_sym_test and exch_test"],
     "deterministic simulation of the C library's generator under the compiled tests (seeded and stuck streams), "
     "counts compared with the enumerated null distribution at significance 1e-9",
     note="seeded search; distributions enumerated or sampled for up to 33 observations")
