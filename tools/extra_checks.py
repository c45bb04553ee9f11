D = "the command-line driver built from the tree; events compared with the library's own, level schemes synthetic"
EXTRA = {
    "C07": ("python3 mc/seq.py C07", "exhaustive exploration of operation sequences on the real library against fresh-process references", "Every sequence of 2 operations from a fresh process and every operation after every 2 preceding ones, of an alphabet of 13 chosen to collide on cached library state."),
    "C22": ("python3 mc/seq.py C22", "exhaustive exploration of create/keep/destroy/release sequences (one process per tree node, ASan and plain builds)", "All sequences to the stated depth with up to 3 live events; every live event re-read after every operation."),

    "C08": ("python3 mc/driver.py C08", "exhaustive enumeration of all consecutive sub-runs and rank splits of bounded runs of the real driver", "All splits of the enumerated runs; MPI replaced by a process-based stand-in. " + D),
    "C09": ("python3 mc/driver.py C09", "enumeration of driver run configurations against a reference model of the summary", "Every enumerated run; values to the printed two decimals. " + D),
    "C10": ("python3 mc/driver.py C10", "enumeration of driver run configurations, history file replayed against the generated events", "Every enumerated run; values to the printed precision. " + D),
    "C11": ("python3 mc/tk.py C11", "exhaustive enumeration of all small history files over an alphabet of event shapes, read back with the real reader", "All files of up to 2 events over the alphabet, and all shipped reference histories; every event limit."),
    "C12": ("python3 mc/tk.py C12", "exhaustive enumeration of all small history files x observable options, compared with an independent reference model", "All files of up to 2 events over the alphabet, and the shipped reference histories; every public observable with the enumerated options."),
    "C14": ("python3 mc/capi.py", "exhaustive exploration of C-interface operation sequences and enumeration of events, C against C++ in one process", "All sequences of 7 operations to the stated depth (plain and sanitizer builds), and an enumeration of reactions x energies x streams x windows."),
    "C15": ("python3 mc/accept.py", "exhaustive enumeration of target numbers x boundary energies x windows x modes x interfaces against the documented list", "All target numbers of the stated neighbourhood; thorough covers every nuclide of Z 88-100, A 226-257."),
    "C20": ("python3 mc/refs.py", "replay of every shipped reference trace against the implementation", "Every event of all 29 reference histories, serial and on two ranks; the part of the event that does not depend on the undistributed level file."),
    "C21": ("python3 mc/missing.py", "exhaustive fault injection: every data file missing, one and two at a time", "All single files and all pairs of needed files for the enumerated run classes, and absent data directories."),
    "C13": ("python3 mc/yld.py", "enumeration of yields runs, all their prefixes and resumptions, and of all small yields files, against event mode and a reference model", "Enumerated reactions, energies and run lengths; every yields file of up to 3 events (thorough 4) over the alphabet."),
    "C18": ("python3 mc/sampling.py", "explicit enumeration of a model of the sampling decisions, every model trace replayed on the library", "Every mass, both sides of every acceptance threshold, at the enumerated reactions and energies; charges taken from the library."),
    "C19": ("python3 mc/prefission.py", "explicit enumeration of a model of the multi-chance choice, every model decision replayed on the library", "Every cell and both sides of every acceptance threshold at the enumerated reactions and energies; energies to the library's bins."),
    "C16": ("python3 mc/cascade.py C16", "explicit enumeration of all paths of a cascade model over a family of level schemes, every path replayed on the library", "All 64 topologies of three excited levels with patterns of branching, conversion and half-life; fragments starting inside the levels, plus an enumeration of continuum decays."),
    "C17": ("python3 mc/cascade.py C17", "explicit enumeration of cascade-model paths x windows on both sides of every decay time, replayed on the library; all window sequences to a depth", "Schemes as for C16; all sequences of 5 windows to depth 3 (thorough 4)."),
    "C06": ("python3 mc/memory.py", "bounded exhaustive exploration of executions of the sanitizer builds, and of memory fillings", "Reactions x energies x level files x streams, all 1-deviations of baseline streams, yields runs, under ASan and UBSan; differential runs for uninitialised memory."),
    "C23": ("python3 mc/initial.py C23", "explicit enumeration of a model of the charge sampling, every model decision replayed on the library", "Every mass and charge, both sides of every acceptance threshold, at the enumerated reactions, energies and chances."),
    "C24": ("python3 mc/initial.py C24", "explicit enumeration of a model of the sharing and spin sampling, every model trace replayed on the library", "Every mass and charge, spins below 12 (thorough 16) on both sides of their probability, at the enumerated reactions, energies and chances."),
    "C25": ("python3 mc/directions.py", "exhaustive enumeration of the grid cells of the draws behind each direction, every cell replayed on the library", "Grids of 10x10 (thorough 24x24) cells for the fission axis and 8x8 (12x12) for particles; distributions compared cell by cell."),
}
