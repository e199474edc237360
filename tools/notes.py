# property: (technique, what the level means here)
RUN = "TLC accepts recorded whole runs of the command against Cli.tla"
NOTE = {
 "C01": ("TLA+/TLC: ResolveSteps checked; recorded Resolve calls and whole runs validated against Resolve/Cli",
         "exhaustive over graphs of 3 types with up to 2 references each and all export sets; code: enumerated graphs, random documents, whole runs"),
 "C02": ("TLA+/TLC: ResolveSteps checked; recorded Resolve calls and whole runs validated against Resolve/Cli",
         "exhaustive over graphs of 3 types; code: enumerated graphs, random documents with odd keys, whole runs"),
 "C03": ("TLA+/TLC: ResolveSteps with termination checked; recorded Resolve calls and whole runs (with deadlines) validated",
         "exhaustive over all graphs of 3 types and all documents referring to them; code: the same graphs, random larger ones, recursive Go types"),
 "C04": ("TLA+/TLC: ResolveSteps checked; recorded Resolve calls and whole runs validated against Resolve/Cli",
         "exhaustive over graphs of 3 types and all export sets; code: the same, double and clashing exports, whole runs"),
 "C05": ("TLA+/TLC: Pipeline (all map orders of all stages) and KeyOrder checked; repeated whole runs validated byte for byte",
         "model: every order of every stage of small worlds; code: rich projects run repeatedly in fresh processes"),
 "C06": ("TLA+/TLC: EnvSteps checked; " + RUN,
         "model: every order of finding what references denote, small type sets and overrides; code: random projects of like types with overrides"),
 "C07": ("TLA+/TLC: SpecsSteps checked, its projects enumerated; " + RUN,
         "model: every order of packages, files and merges of small projects; code: enumerated and random projects, agreeing and differing"),
 "C08": ("TLA+/TLC: SpecsSteps checked, its projects enumerated; " + RUN,
         "model: as C07; code: enumerated and random projects, file names, directories and references"),
 "C09": ("TLA+/TLC: MergeSteps checked; every small merge enumerated into the code; merges and container histories validated",
         "exhaustive over documents of two keys and two levels for 4 policies; code: all of them, random ones, histories of operations"),
 "C10": ("TLA+/TLC: RootSteps checked; recorded merges and whole runs validated against Root/Cli",
         "exhaustive over small documents per section kind; code: random typed root documents, every key of the configuration on its own"),
 "C11": ("TLA+/TLC: OpsSteps checked and enumerated; recorded applications and whole runs validated against DefOps/Cli",
         "exhaustive over small documents and lists of patterns in all orders; code: the same, random ones, every key of an operation on its own"),
 "C12": ("TLA+/TLC: RouteSteps checked; all short patterns and paths enumerated into the code; random ones validated",
         "exhaustive over patterns and paths of up to 3 (4) parts; code: the same, random longer ones, whole runs"),
 "C13": ("TLA+/TLC: RouteCache interleavings checked with liveness; behaviours of the model and concurrent calls under the race detector validated",
         "exhaustive over 2 threads with 2 calls each (3 threads thorough); code: simulated histories, concurrent calls with -race"),
 "C14": ("TLA+/TLC: Types specifies the schema of every type; recorded schemas of systematic and random types and whole runs validated",
         "code: all kinds in all nestings to depth 2, random programs to depth 4, whole runs"),
 "C15": ("TLA+/TLC: StructsEnum checked and enumerated into the code; random programs and whole runs validated against Types",
         "exhaustive over programs of three structs with embedding, tags and hiding; code: a sample of these, deeper random ones"),
 "C16": ("TLA+/TLC: TagsEnum checked and enumerated into the code; random tags and whole runs validated against Tags",
         "exhaustive over one or two options on every kind of field; code: all of these, random tags"),
 "C17": ("TLA+/TLC: TypesWalk checked; every address of small programs and random ones validated against Types",
         "exhaustive over walks in programs of three types, pointers of 3 (4) tokens; code: the same and random programs, several packages and orders"),
 "C18": ("TLA+/TLC: PointerText, Fragments (refinement) and PointerHist checked; histories of derivations and texts validated",
         "exhaustive over short tokens and fragments, 3 (4) derivations of 3 handles; code: simulated and random histories, all short texts"),
 "C19": ("TLA+/TLC: DotPath and Containers checked; reads, writes, extractions and container histories validated",
         "exhaustive over keys of 2 characters and paths of 2 (3) keys; code: the same, random documents, histories of operations"),
 "C20": ("TLA+/TLC: KeyOrderMC checked; outputs of whole runs in all formats, read back, validated against KeyOrder/Cli",
         "exhaustive over sets of keys; code: all of these (a sample quick), strings and numbers that are special in some format"),
 "C21": ("TLA+/TLC: PkgScanSteps on all import graphs checked; recorded scans and whole runs validated against PkgScan",
         "exhaustive over graphs of 3 (4) packages with errors; code: all graphs of 4 packages, random larger ones"),
 "C22": ("TLA+/TLC: CmdsEnum checked and enumerated into source files; random comments and whole runs validated against Cmds",
         "exhaustive over comments of a few words; code: the same and random comments in every place of source files"),
 "C23": ("TLA+/TLC: ConfigSteps checked, its scenarios enumerated into runs; " + RUN,
         "exhaustive over three settings in four places; code: a sample (all of them thorough), relative paths, extended configurations"),
 "C24": ("TLA+/TLC: CliSteps (faults, signals, histories) checked and simulated into runs; " + RUN,
         "exhaustive over histories of two runs with a fault in each phase, signals and kills; code: each fault, file size limits, full devices, faults in and kills at system calls on the output (strace), histories of three runs, stops by signals"),
 "C25": ("TLA+/TLC: LibSteps (calls, overlaps, changed files, cancellations) checked with liveness and simulated into histories of calls of the real library in one process under the race detector, each result validated by TLC (Cli, Project)",
         "exhaustive over three calls, two at a time; code: simulated histories of up to 8 calls, 4 at a time, on random projects and options"),
}
