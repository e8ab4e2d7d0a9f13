_A = ("Exhaustive within the bounds of the tier printed by the run; data values outside the alphabet are covered by "
      "linearity where the text says basis. Trusts torch's tensor primitives, numpy and the reference code in mc/ref.py.")
TECH = {
 "C01": ("exhaustive bounded exploration of the implementation: configurations (deviation-bounded) x all lattice symmetries x full input and weight bases, differential (symmetry) oracle", _A),
 "C02": ("exhaustive bounded exploration of the implementation: configurations x grid pairs x all lattice symmetries x input basis, differential (symmetry) oracle", _A),
 "C03": ("exhaustive enumeration of all layer programs up to a depth x all lattice symmetries on the real modules, symmetry and invariance oracle", _A),
 "C04": ("exhaustive bounded enumeration of hyper-parameters, lock-step with a loop reference convolution", _A),
 "C05": ("exhaustive enumeration of kernels x one-hot weight states x grids, lock-step with a reference sampler", _A),
 "C06": ("exhaustive enumeration of grid permutations and sub-grids and of random-generator answers (menu), differential oracle", _A),
 "C07": ("explicit-state search of the Cayley graphs of finite subgroups with the real operations as transitions, exact group model in lock-step", _A),
 "C08": ("explicit-state search of the Cayley graphs acting on a finite vector lattice, exact integer-matrix oracle", _A),
 "C09": ("exhaustive search of all conversion chains up to a length from a finite lattice of (degenerate) rotations, rotation-matrix oracle", _A),
 "C10": ("explicit-state closure search of every named group, group-theory oracle", _A),
 "C11": ("exhaustive enumeration of generator requests and random-generator answers (menu), validity oracle", _A),
 "C12": ("breadth-first search over all operation histories of the grid table, dictionary model in lock-step", _A),
 "C13": ("exhaustive enumeration of node sets, queries, one-hot signals and modes, reference interpolants in lock-step", _A),
 "C14": ("exhaustive enumeration of element pairs and triples and of all reference grids x kernels, exact angle oracle", _A),
 "C15": ("exhaustive enumeration of pooling configurations x orderings x one-hot states, loop model in lock-step", _A),
 "C16": ("search over all train/eval/forward/reset histories up to a depth, reference statistics model in lock-step", _A),
 "C17": ("breadth-first search over all interleaved operation histories of live layers, isolated-run (differential) oracle", _A),
 "C18": ("stateless model checking of the real code: all line-level two-thread schedules up to a preemption bound under a controlled scheduler, serial-result oracle", _A + " Scheduling points are source lines of the package; switches inside one C-level tensor operation are not modelled."),
 "C19": ("exhaustive enumeration of save/load/copy/pickle histories x layer configurations, differential oracle", _A),
 "C20": ("exhaustive enumeration of all weight and input entries of small layers; each gradient entry compared with the response to that one-hot state", _A),
 "C21": ("exhaustive enumeration of the argument product (valid and invalid), documented-meaning table as oracle", _A),
 "C22": ("exhaustive enumeration of constructors x devices and layers x precisions x memory layouts x batch splits, differential oracle", _A + " Only the cpu and meta devices exist here."),
 "C23": ("exhaustive enumeration of sizes x lattice symmetries x one-voxel images, index-permutation oracle", _A),
 "C24": ("exhaustive enumeration of parameters x random answers (menu) x call histories, reference descent in lock-step", _A),
 "C25": ("exhaustive enumeration of user-defined finite groups x kernel/layer kinds x optional operations x symmetries, symmetry oracle and recorded-call protocol", _A),
}
