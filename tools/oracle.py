# What the harnesses of a property compare the code with.
ORACLE = {
"D01": "A list of the live directives by class of equivalence, kept by the harness; instances are compared by identity.",
"D02": "A count of calls per handler and directive, and of runs per returned resolver.",
"D03": "The number of strong and weak references held, and the virtual clock for the delay.",
"D04": "Counters per dispose callback, reference, resolver and value.",
"D05": "`hu.Ref` records every event of a reference and checks pairing; the set of live values is computed from the accepted additions and removals.",
"D06": "A mirror of the values of every resolver and the results each operation must return.",
"D07": "A reference model of cap, running resolvers and values (`DMachine`, `DMachineCap`: a model of the whole instance run in lockstep).",
"D08": "The expected idle state computed from the resolvers of the harness; the sequence of reports must alternate and end with it.",
"D09": "Values and runs per handler; everything of the removed handler is gone and everything else is as before.",
"D10": "The number of runs of a resolver in progress (at most one) and the effects of runs that were canceled.",
"D11": "Counters per callback, compared with the removals that happened.",
"B01": "The set of attached controllers, counts of executions and callbacks, contexts.",
"B02": "A controller that panics with values of several types next to others that go on.",
"B03": "The race detector of the engine (conflicting accesses of segments not ordered by synchronisation) and bounds from the operations that had returned or not begun.",
"B04": "The arguments which the constructors and functions of the harness receive.",
"H01": "The live values, errors, filter and idle callbacks are scripted by a puppet resolver; the result is computed from the script.",
"H02": "As H01; the collected values are compared with the live ones.",
"H03": "As H01; every told value must be live and acceptable, and a change is only allowed when needed.",
"H04": "Every started effect is counted until its release and compared with the live values.",
"H05": "The values of the outer directive are compared with the (transformed) values of the source.",
"H06": "All references are compared with the live value; the directive is listed exactly while needed.",
"H07": "Counters per function of the handlers, all combinations of missing functions.",
"R01": "Values given out by scripted sources are counted until they are released.",
"R02": "As H05 with releases.",
"R03": "The keyed values of the container of the harness.",
"R04": "The virtual clock and the backoff which the harness scripts.",
"C01": "The push with the highest revision (first one wins) per key, and the loads that a puppet loader saw.",
"C02": "References per key, and the loads that are active.",
"C03": "A merge written in the harness.",
"C04": "The state of every key as the references of the controller report it.",
"X01": "The message which was encoded; and a second encoding for arbitrary bytes.",
"X02": "The set which was converted or which the document describes.",
"L01": "Constructed controllers count executions, errors and closings; the backoff is scripted.",
"L02": "Executions and closings per configuration, compared with the directives that are live.",
"L03": "Versions compared by the rules of semantic versions written in the harness.",
"E01": "The status computed from the scripted state of each configuration.",
"P01": "The constructed controllers, whether they are on the bus, and the contexts of the factories.",
"P02": "The files of a modelled directory (a real scratch directory natively) and the opened libraries, whose symbols a hook in place of the dynamic linker provides.",
"P03": "A predicate on names written without regular expressions; the modelled directory as for P02.",
"P04": "The absolute directory every replacement leads to; the declarations before merging.",
"P05": "The type checker of Go (interpreted too) accepts the code; the functions the calls resolve to, and the values of its constants, compared to the packages.",
"P06": "The list of files which must exist; the tokens of the sources with prefixed imports; the absolute directory every replacement leads to.",
"P07": "The calls of the go tool and the contents of the directories; the hash in the name, the paths and the version of the plugin must be the same one.",
"P08": "The calls of the go tool and the contents of the directories given the arguments.",
"K01": "Which factories must be found and which controllers must run given the options.",
"K02": "The requests which the harness expects and the answers it gives; a list of the printed lines.",
"A01": "The controllers and directives of the bus; the calls of a scripted stream.",
}
