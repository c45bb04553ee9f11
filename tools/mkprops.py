#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}})


L = "libcgmf/src/"
EVQ = "every supported reaction and incident energy, every random-number stream, every level file"
p("C01", "Nucleon number and charge are conserved in every event",
  "In every generated fission event the fragment masses plus the pre-fission neutrons add up to the mass number of the fissioning compound nucleus, the fragment charges add up to its charge, and the fragment reported as light is not heavier than the one reported as heavy. Event totals of neutrons and photons are the sums over the two fragments, and no fragment emits more neutrons than a physical residue allows. The event also reports the reaction it was asked for.",
  ["inputs", "histories"], EVQ,
  "Shipped tests compare 40 seeds at a few energies with frozen text, and cannot run here; conservation has to hold for every reaction, energy and random stream, including rare chances and symmetric splits.",
  [L + "FissionFragments.cpp", L + "cgmfEvents.cpp", L + "specmc.cpp"],
  [("fragment sampling", L + "FissionFragments.cpp: sampleFissionFragments, constructYields, getNumberPrefissionNeutrons"), ("per-fragment decay bookkeeping", L + "specmc.cpp: recordEmittedParticlesFission"), ("event assembly", L + "cgmfEvents.cpp: event constructor")],
  "public event getters and the yields file")
p("C02", "Momentum is conserved at scission and through neutron emission",
  "In every event the vector sum of the two fragment momenta before neutron emission and the pre-fission neutron momenta equals the momentum of the incident neutron (zero for spontaneous fission). For each fragment, its momentum before emission equals its momentum after emission plus the laboratory momenta of the neutrons it emitted.",
  ["inputs", "histories"], EVQ,
  "A sign, frame or ordering slip shows up only for particular multiplicities, chances or pre-equilibrium emission; tests sample few of these and compare three-decimal text.",
  [L + "kinematics.cpp", L + "specmc.cpp", L + "cgmfEvents.cpp"],
  [("scission kinematics with pre-fission neutrons", L + "kinematics.cpp: boost_pfn"), ("neutron recoil", L + "kinematics.cpp: boost")],
  "public event getters and the yields file")
p("C03", "Energy is conserved at scission and in each fragment's decay",
  "Total kinetic plus total excitation energy of the fragments equals the reaction Q-value from the shipped mass table plus the excitation energy left in the fissioning nucleus after pre-fission emission. For each fragment, the centre-of-mass neutron energies, neutron separation energies and rest-frame photon energies never exceed its excitation energy, and account for all of it when nothing is lost to internal conversion or to a coincidence window. Excitation and kinetic energies of both fragments are positive and the kinetic energies share in inverse proportion to mass.",
  ["inputs", "histories"], EVQ,
  "The balance involves mass-table lookups for hundreds of nuclides and every possible emission chain; a wrong mass, a dropped photon or a double-counted separation energy only appears for particular chains.",
  [L + "FissionFragments.cpp", L + "specmc.cpp", L + "kinematics.cpp", L + "masstable.cpp"],
  [("energy release and sharing", L + "FissionFragments.cpp: computeFragmentInitialConditions, computeFragmentExcitationEnergy"), ("decay history", L + "specmc.cpp: mcHistoryLoop, mcStoreHistory, mcGammaCascade"), ("masses", L + "masstable.cpp, data/masses.dat")],
  "public event getters and the yields file")
p("C04", "Centre-of-mass and laboratory quantities are one consistent kinematics",
  "Each laboratory neutron is the Galilean boost of its centre-of-mass neutron by the velocity the emitting fragment has at that moment, after the recoil of the earlier neutrons, with the neutrons of the light fragment listed before those of the heavy one. The kinetic energies reported before and after emission are those of the reported momenta. Photon energies are the rest-frame energies Doppler-shifted by the velocity of the fragment that emitted them.",
  ["inputs", "histories"], EVQ,
  "The relation between the two lists must hold neutron by neutron for any multiplicity; averages and frozen outputs cannot separate a swapped index or a stale recoil from physics.",
  [L + "kinematics.cpp", L + "specmc.cpp", L + "cgmfEvents.cpp"],
  [("boosts", L + "kinematics.cpp: boost, boost_pfn"), ("copy into event", L + "cgmfEvents.cpp: event constructor; " + L + "specmc.cpp: recordEmittedParticlesFission")],
  "public event getters")
p("C05", "Every event is well formed whatever the random stream",
  "Every reported number is finite; energies are non-negative, directions are unit vectors, parities are plus or minus one, and spins are integer for even and half-integer for odd mass. Neutron ages equal the event time and photon ages are never earlier than the event time or later than the coincidence window. Asking for a particle index outside the list answers -1.",
  ["inputs", "histories"], EVQ + ", every event time",
  "Bad values come from corner draws (grid edges, zero-energy bins, the last bin of a table) that a few fixed seeds never hit.",
  [L + "cgmfEvents.cpp", L + "specmc.cpp", L + "FissionFragments.cpp", L + "kinematics.cpp", "libcgmf/include/cgmfEvents.h"],
  [("getters", "libcgmf/include/cgmfEvents.h"), ("spin and parity sampling", L + "FissionFragments.cpp: getInitialSpin"), ("recording", L + "specmc.cpp: recordEmittedParticlesFission")],
  "public event getters")
p("C06", "Event generation is memory-safe and terminates",
  "Generating, querying and destroying events or yields for any supported reaction, energy, random stream and level file never reads or writes outside an object, never uses freed or uninitialised library state, and always returns. Undefined arithmetic does not occur.",
  ["inputs", "histories"], EVQ + ", including level files in which nuclei are missing or schemes are minimal",
  "The shipped tests run an optimised build without checking; overruns depend on which nuclides and multiplicities come up.",
  [L + "ripl2levels.cpp", L + "specmc.cpp", L + "FissionFragments.cpp", L + "kinematics.cpp", L + "Yields.cpp"],
  [("fixed-size history and particle arrays", L + "specmc.cpp: gammaTimeStamp, hs, recordEmittedParticlesFission"), ("level tables", L + "ripl2levels.cpp: getDiscreteLevels, readDiscreteLevelData"), ("yield tables", L + "FissionFragments.cpp")],
  "address and undefined-behaviour sanitizers, draw and CPU budgets")
p("C07", "An event depends only on its own arguments and its random stream",
  "The event produced for given arguments and a given sequence of random numbers is bit-for-bit the same whatever events were generated before it in the same process, with whatever reactions, energies, times and coincidence windows. Generating it twice gives the same event twice.",
  ["histories", "inputs"], "every sequence of events, over all pairs and triples of reactions, energies and windows",
  "The library keeps dozens of global tables and static flags; only exhaustive operation sequences compared with a fresh process show a leak from one event into the next.",
  [L + "cgmfEvents.cpp", L + "specmc.cpp", L + "FissionFragments.cpp", L + "ripl2levels.cpp", L + "setup.cpp"],
  [("first-call initialisation", L + "cgmfEvents.cpp: firstcalc; " + L + "specmc.cpp: firstcalcspec"), ("global nucleus and yield tables", L + "cgmfEvents.cpp: ncl, ctl")],
  "public event getters")
p("C08", "Splitting a run over starting events or ranks never changes its events",
  "A run of N events is the concatenation of any split of it into consecutive runs with matching starting-event numbers, and of the files of any number of parallel ranks that share the work. No event is lost, duplicated or altered by where the run is cut, and the summary of a parallel run covers the events of all ranks.",
  ["configurations", "inputs"], "every way to cut a run of up to N events into consecutive pieces, every rank count up to a bound",
  "The shipped tests check one start offset and need two ranks; reproducibility is promised for every split.",
  ["utils/cgmf/cgmf.cpp", "libcgmf/include/rngcgm.h"],
  [("seeding per event", "utils/cgmf/cgmf.cpp: main loop"), ("rank reduction", "utils/cgmf/cgmf.cpp: printSummaryEvents")],
  "history files and standard output of the command-line program")
p("C09", "The printed run summary equals the averages of the run's events",
  "Every average in the end-of-run summary (fragment masses and charges, kinetic and excitation energies, spins, neutron and photon multiplicities and mean energies, per fragment and total, pre-fission neutrons) equals the same average computed from the events of that run. It names the reaction that was run.",
  ["inputs", "configurations"], "every reaction, energy, number of events, starting event and rank count within bounds",
  "No shipped test looks at the summary.",
  ["utils/cgmf/cgmf.cpp"],
  [("accumulation", "utils/cgmf/cgmf.cpp: recordEvent"), ("printing", "utils/cgmf/cgmf.cpp: printSummaryEvents")],
  "standard output compared with events regenerated through the library")
p("C10", "The history file records exactly the events that were generated",
  "The history file starts with a header giving the target, the incident energy and the coincidence window, followed by every event of the run in order: for each fragment its properties, momenta, neutrons in both frames and photons, and then the pre-fission neutrons, each value being the generated one to the printed precision. Lines for particles are present exactly when there are such particles, and photon ages are written exactly when the window is infinite.",
  ["inputs", "configurations"], "every reaction, energy, window option, event count and starting event within bounds",
  "The shipped comparison needs the level file that is not distributed and covers one window option per reaction.",
  ["utils/cgmf/cgmf.cpp"],
  [("event printer", "utils/cgmf/cgmf.cpp: printEventToFile"), ("option parsing", "utils/cgmf/cgmf.cpp: readUserInput")],
  "history file compared with events regenerated through the library")
p("C11", "Reading a history file gives back exactly what it contains",
  "The analysis package reads any well-formed history file, with or without photon ages, with any pattern of zero and non-zero multiplicities, and returns each fragment's properties and momenta, the particle energies, the neutron directions and the photon ages exactly as written, in order. Limiting the number of events read returns exactly the first ones.",
  ["inputs"], "every history file whose per-event shapes come from a small alphabet of multiplicities, up to a bounded number of events",
  "The tests read two sample files; mistakes depend on the pattern of zero multiplicities, pre-fission neutrons and equal list lengths.",
  ["tools/CGMFtk/histories.py"],
  [("parser", "tools/CGMFtk/histories.py: readHistories and reading methods"), ("accessors", "tools/CGMFtk/histories.py: getA … getPFNdircos")],
  "public accessors of the reader")
p("C12", "Derived observables equal their definitions on every history",
  "Every observable the analysis package derives from a history file (multiplicities, averages, multiplicity distributions, spectra, dependences on mass, charge and kinetic energy, angles, time cuts, energy thresholds) equals the value its definition gives on the events of the file. This includes files with no pre-fission neutrons, with fragments that emit nothing, and files with a single event.",
  ["inputs", "configurations"], "every small history over an alphabet of event shapes, every threshold and time-cut option from a small set",
  "The tests check a handful of averages on one Cf-252 and one U-235 sample.",
  ["tools/CGMFtk/histories.py"],
  [("derived quantities", "tools/CGMFtk/histories.py: nubar, Pnu, pfns, pfgs, nubarA, gammaMultiplicity, nFangles …")],
  "public methods of the analysis package against an independent reference model")
p("C13", "Yields mode writes the requested fragments and reads back exactly",
  "A yields run of N events writes N light/heavy fragment pairs, in order, that conserve charge, nucleons, momentum and energy for the fissioning nucleus, and depends only on its arguments and starting seed. Each event is an independent sample of the reaction, the first being the one event mode would start from. The yields reader returns the written values, for any limit on the events read, and its averages equal their definitions.",
  ["inputs", "configurations"], "every reaction and energy, event counts and seeds within bounds; every small yields file",
  "Three frozen yields files are compared; nothing checks the physics content of the file, other energies, or the reader's derived quantities.",
  [L + "cgmfEvents.cpp", L + "FissionFragments.cpp", "tools/CGMFtk/yields.py", "utils/cgmf/cgmf.cpp"],
  [("yields writer", L + "cgmfEvents.cpp: yields constructor"), ("history generation", L + "FissionFragments.cpp: generateInitialFissionFragmentHistories"), ("reader", "tools/CGMFtk/yields.py")],
  "yields file and the yields reader")
p("C14", "The C interface returns exactly what the C++ interface returns",
  "For every event, each C function returns the value of the corresponding C++ accessor, for every particle index including out-of-range ones. Every function the C header declares can be called from C, and generating, querying and clearing events may be repeated in any order of whole events.",
  ["inputs", "histories"], "every reaction and stream within bounds, every sequence of generate/query/clear calls up to a depth",
  "No test uses the C interface.",
  [L + "cgmfEvents_capi.cpp", "libcgmf/include/cgmfEvents_capi.h"],
  [("wrappers", L + "cgmfEvents_capi.cpp")],
  "C interface against C++ interface in one process")
p("C15", "Unsupported input is refused and supported input is accepted",
  "Spontaneous fission is accepted exactly for Pu-238, Pu-240, Pu-242, Pu-244, Cf-252 and Cf-254, and neutron-induced fission exactly for U-233, U-234, U-235, U-238, Np-237, Pu-239 and Pu-241 at energies above zero and up to 20 MeV. Any other target or energy ends with an error message and a failing exit status, in event and in yields mode and through every interface, and writes no events. A coincidence window must be positive, zero or -1.",
  ["inputs"], "every target number in a neighbourhood of the supported ones and every boundary energy, in both modes",
  "Tests only run supported reactions.",
  [L + "cgmfEvents.cpp", L + "FissionFragments.cpp", "utils/cgmf/cgmf.cpp"],
  [("input check", L + "cgmfEvents.cpp: checkInput"), ("option check", "utils/cgmf/cgmf.cpp: readUserInput")],
  "exit status and output of the program and of the library")
p("C16", "Discrete gamma cascades follow the level scheme that was supplied",
  "Once a fragment's decay reaches the discrete levels of its residue, each photon carries the energy difference of two levels joined by a listed transition, chosen with the listed branching ratios, and the cascade ends in the ground state or in a level that cannot decay within the coincidence window. A transition is replaced by internal conversion, giving no photon, with the listed conversion probability.",
  ["inputs", "histories"], "every level scheme from a family of small schemes, every fragment that reaches them, every random stream within bounds",
  "The level file is not distributed with the repository, so event tests do not run; branch selection has to be right for every scheme.",
  [L + "specmc.cpp", L + "ripl2levels.cpp", L + "setup.cpp"],
  [("cascade", L + "specmc.cpp: mcGammaCascade"), ("level reading and normalisation", L + "ripl2levels.cpp: readDiscreteLevelData, getDiscreteLevels")],
  "photon lists of events against the supplied scheme")
p("C17", "The coincidence window keeps exactly the photons emitted within it",
  "With an infinite window all photons are reported with their emission times, which accumulate along the cascade with the exponential law of each level's half-life. With a positive window the photons reported for a fragment are exactly those of the infinite-window decay emitted within the window. The window given for an event applies to that event and to no other.",
  ["inputs", "histories", "configurations"], "every window from a grid, every sequence of windows up to a depth, every random stream and half-life within bounds",
  "Tests check one window on one sample; the window is held in process-wide state.",
  [L + "specmc.cpp", L + "cgmfEvents.cpp", "utils/cgmf/cgmf.cpp"],
  [("window", L + "specmc.cpp: set_time_coincidence_window, mcGammaCascade")],
  "photon lists and ages under pairs of windows")
p("C18", "Fragment sampling follows the shipped yield and kinetic-energy systematics",
  "For each fissioning nucleus and excitation, the probability of each fragment mass is the normalised, mirror-symmetric sum of modes given by the shipped yield parameters, and the kinetic energy for each mass is sampled around the mean and with the width given by the shipped kinetic-energy parameters. A choice is accepted exactly when the drawn value lies under the distribution.",
  ["inputs", "histories"], "every reaction and energy on a grid, every fragment mass, all acceptance thresholds enumerated through the draws",
  "Frozen outputs fix a few draws at a few energies; the distribution as a whole is never compared with the data files.",
  [L + "Yields.cpp", L + "FissionFragments.cpp", "data/yamodel.dat", "data/tkemodel.dat"],
  [("mass yields", L + "Yields.cpp: setFissioningSystem, yieldA"), ("kinetic energy", L + "Yields.cpp: sampleTKE, setRescaleTKE"), ("acceptance", L + "FissionFragments.cpp: sampleFissionFragments")],
  "fragment masses and kinetic energies under scripted draws")
p("C19", "Pre-fission neutrons obey the multi-chance data and energetics",
  "The number of neutrons emitted before fission is sampled with the shipped multi-chance probabilities interpolated at the incident energy, restricted to chances that are energetically open. Their energies are positive and leave the residual nucleus above its fission barrier, and spontaneous fission has none. Below the second-chance threshold no pre-fission neutron appears.",
  ["inputs", "histories"], "every neutron-induced reaction, every energy on a grid over (0,20] MeV, all values of the deciding draws on a grid",
  "Frozen outputs at three energies per target cannot show the thresholds or the probabilities.",
  [L + "FissionFragments.cpp", "data/multichancefission.dat"],
  [("chance data and sampling", L + "FissionFragments.cpp: readMultichanceFissionData, getNumberPrefissionNeutrons, getPrefissionNeutronEnergy")],
  "pre-fission neutron lists under scripted draws")
p("C20", "Released reference events are reproduced seed by seed",
  "For every reaction with a shipped reference history, regenerating its events with the same seeds gives the same fragments: masses, charges, excitation energies, spins, parities, kinetic energies, momenta and pre-fission neutrons.",
  ["inputs"], "every event of every shipped reference history (29 reactions, 40 events on two ranks)",
  "These tests cannot pass without the undistributed level file, so nothing guards the part of the result that does not depend on it.",
  [L + "FissionFragments.cpp", L + "Yields.cpp", L + "kinematics.cpp", "utils/cgmf/tests"],
  [("initial conditions", L + "FissionFragments.cpp: generateInitialFissionFragmentHistories"), ("reference data", "utils/cgmf/tests/*/histories.cgmf.parallel.*.reference")],
  "fragment lines of the reference files against regenerated events")
p("C21", "A missing data file stops the run with an error, never with wrong events",
  "If any data file needed for a calculation cannot be opened, the run ends with an error message and a failing exit status. It does not crash, loop, or go on to produce events from data that was not read.",
  ["fault_sequences", "configurations"], "every data file the run opens, missing, one and two at a time; every mode and reaction class",
  "Tests always run with a complete data directory.",
  [L + "FissionFragments.cpp", L + "Yields.cpp", L + "kcksyst.cpp", L + "ripl2levels.cpp", L + "masstable.cpp"],
  [("file readers", L + "FissionFragments.cpp: read*; " + L + "Yields.cpp: set*Parameters; " + L + "kcksyst.cpp: readkcksystdat")],
  "exit status, standard error and output files of the program")
p("C22", "Events and library state can be created and released in any order",
  "Events may be created, kept, destroyed and re-created in any order, several may exist at once, and the library's tables may be released and used again, without memory errors and without changing the values any event reports. Values read from an event stay the same until it is destroyed.",
  ["histories"], "every sequence of create, destroy and release operations on up to three events up to a depth",
  "The command-line program creates one event at a time and releases once.",
  [L + "cgmfEvents.cpp", L + "terminate.cpp", L + "specmc.cpp", L + "ripl2levels.cpp", L + "FissionFragments.cpp"],
  [("release", L + "cgmfEvents.cpp: cgmf_cleanup; " + L + "terminate.cpp: cgmDeleteAllocated")],
  "operation sequences under the address sanitizer, values compared with a fresh process")
p("C23", "Fragment charges follow the charge systematics for every mass",
  "For each fragment mass the charge is sampled from the Zp systematics of Wahl for the compound nucleus formed in the reaction and its excitation energy: around the most probable charge of that mass, with the width of its mass region and the even-odd factors for proton and neutron number. A charge is accepted exactly when the drawn value lies under the distribution, and the other fragment takes the remaining charge.",
  ["inputs"], "every mass of every mass distribution, every charge of its range, both sides of its acceptance threshold, for all reactions and a grid of energies and chances",
  "Tests compare a few sampled events of a few reactions; a wrong width or parity factor in one mass region leaves them unchanged.",
  [L + "FissionFragments.cpp"],
  [("systematics", L + "FissionFragments.cpp: ZDistribution"), ("distribution and sampling", L + "FissionFragments.cpp: buildYZA, sampleFissionFragments")],
  "charges of the fragments written in yields mode against a model of the systematics, decision by decision")
p("C24", "Excitation energies, spins and parities follow the shipped tables",
  "The total excitation energy is divided between the two fragments so that the ratio of their temperatures is the shipped R_T of the heavy mass (1.2 for reactions without a table), with the shipped level-density parameters at the resulting energies. Each spin is sampled from (2J+1)exp(-J(J+1)/2B^2) with B^2 from the shipped temperature, deformation and spin-scaling tables at the excitation energy of that fragment and the effective incident energy, and the parities are equally probable and independent.",
  ["inputs"], "every mass and charge, and for each mass every spin up to a bound on both sides of its probability, for all reactions and a grid of energies and chances",
  "Tests compare a few sampled events; most table entries and reactions are never touched.",
  [L + "FissionFragments.cpp"],
  [("energy sharing", L + "FissionFragments.cpp: computeFragmentExcitationEnergy, readRTA, getLDP"), ("spins", L + "FissionFragments.cpp: getInitialSpin, spinParameter2, setSpinStrength, readSpinScaling, getTemperature, getDeformation")],
  "excitation energies, spins and parities written in yields mode against a model built from the shipped tables")
p("C25", "Directions are isotropic or follow the shipped angular distributions",
  "The fission axis is isotropic for spontaneous fission and distributed as 1+(a-1)cos^2 about the incident neutron otherwise, with the shipped anisotropy a of the target at the incident energy. Neutrons and photons are emitted isotropically in the frame of their emitter and independently of one another, except that pre-equilibrium neutrons follow their shipped angular distribution.",
  ["inputs"], "every cell of a grid of the random numbers behind each direction, for all reactions and a grid of energies",
  "Tests run at a few energies and compare a few events; a distribution cannot be seen in them.",
  [L + "kinematics.cpp", L + "FissionFragments.cpp"],
  [("fission axis and pre-fission neutrons", L + "kinematics.cpp: boost_pfn, neutron_emission_boost"), ("emission", L + "kinematics.cpp: boost"), ("anisotropy", L + "FissionFragments.cpp: computeFragmentAngularDistribution, readAnisotropy, readPreEqAngularDistributionParameters")],
  "directions reported for every grid cell against the quantiles of the prescribed distributions")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
