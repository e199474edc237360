import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})
R="internal/oapi/resolver/resolver.go"; RU="internal/oapi/resolver/utils.go"; C="internal/container/"; T="internal/oapi/scan/types/types.go"
p("C01","No external reference survives a successful run",
"When resolving (or a whole scan) succeeds, the resulting document contains no `$ref` with a URI scheme (go://...) at any place: objects, arrays, below keys with dots or other special characters, inside generated components, default operations, root components or overrides; and every local reference the tool wrote points to a component that is in the document. A reference which cannot be resolved (unknown package, type, field or scheme) makes the call fail with an error; it never crashes, hangs or leaves a partly resolved document reported as success.",
["inputs","programs"],"all documents, all sets of Go types reachable from them, all sets of exports and overrides",
"No repository test calls the resolver or Scan at all; the property quantifies over documents and type graphs of any shape.",
["oapi.go",R,RU,C+"utils.go"],[("recursive resolver","resolver.Resolve / iterator"),("reference extraction","container.ExtractKey"),("type lookup","types.Scanner.Resolve")],
[("con","document being resolved","resolver.resolver.con"),("pp","pointers being expanded","resolver.iterator argument pp")],["resolver.Resolve result","oapi.Scan + Format output","CLI output"])
p("C02","Resolving replaces references and nothing else",
"The resolved document is the input document in which each external reference object is replaced by the (itself fully resolved) schema of its target, or, if the target is exported, refers to the exported component, plus the components so exported; every other key, value, array length and array order is unchanged, local references included. The input document given to the resolver is not modified.",
["inputs","programs"],"all documents, targets and exports",
"No test compares a resolved document with its input; a sample cannot show that no other place of a document of any shape is touched.",
["oapi.go",R,RU,C+"container.go",C+"utils.go"],[("replacement in place","resolver.ReplacePtr / UpdatePtrToLocal"),("clone of the input","resolver.Resolve, container.Clone"),("dot path addressing","container.SliceToDotPath, Container.SetP")],None,["resolver.Resolve input and result","CLI output"])
p("C03","Recursive types terminate and are cut exactly where they recur",
"Resolving terminates for every graph of types, however they refer to themselves or each other (through pointers, slices, maps, fields, other packages). A reference to a type which is already being expanded becomes a reference to its component if the type is exported and the empty schema {} otherwise; a type which merely occurs several times without recursion is expanded in full each time.",
["inputs","programs"],"all finite reference graphs, with any subset of the types exported",
"Tests contain one self referencing type and never resolve it; termination and the place of the cut concern every cyclic graph.",
[R,T],[("path of pointers being expanded","resolver.path.has, iterator, setRecursive"),("cycle detection on types","types.path in walk, type2schema, collectStructFields")],[("pp","pointers being expanded","resolver.iterator")],["resolver.Resolve result","CLI output"])
p("C04","An exported type is one component, independent of where it is used",
"Every exported type that is referenced appears exactly once, under components.schemas with its declared name, all references to it are local references to that component, and the content of the component depends only on the type, not on where, how often or in which order it is referenced. Exporting the same type twice, two types under one name, or a type under the name of a component which the specification or root document already defines is an error, never a silent overwrite.",
["inputs","programs","histories"],"all sets of exports and all reference graphs and orders of resolution",
"No test exports anything; independence from the order of resolution concerns all orders (Go map iteration is random).",
[R,RU,"internal/oapi/scan/cmds/scan.go","internal/oapi/scan/cmds/schema.go"],[("exports lookup","resolver.Exports.Get"),("component definition","resolver.set, SetEntity"),("duplicate detection","cmds.Scanner.ExportedComponents")],[("def","components defined so far","resolver.resolver.def")],["resolver.Resolve result","cmds.Scanner.ExportedComponents","CLI output"])
p("C05","Output is a function of the input",
"Running the same command on the same packages, specification files and configuration yields byte-identical output in every format, in every run. In particular it does not depend on map iteration order, e.g. of overlapping default operations, references, packages, exported types or top level keys.",
["inputs","schedules","histories"],"all projects and configurations, all iteration orders",
"Tests run once and never compare two runs; iteration order is random per run.",
["oapi.go","internal/oapi/oapi.go",C+"sort.go","internal/oapi/scan/types/point.go",R],[("sorted application of patterns","oapi.SetPathsDefaults"),("sorted marshalling","container.MapSlice"),("pick of a type's pointer","types.pointmap.pick")],None,["CLI output","oapi.Format output","resolver.Resolve result"])
p("C06","An override replaces exactly the overridden type, everywhere",
"If the configuration overrides a pointer, every reference to exactly that pointer (in specifications, in other Go types, in default operations, in other overrides) gets the override's schema instead of the Go type's, the override's own references being resolved in turn; the overridden type need not exist or be expressible. References to any other pointer, including other types with identical fields or the type's own fields, are not affected.",
["inputs","programs","configurations"],"all override maps, type graphs and documents",
"No test sets an override.",
["oapi.go",T],[("override lookup","oapi.Scan callback to resolver.Resolve"),("naming of referenced types","types.reference2schema")],None,["CLI output with overrides configured"])
p("C07","Merging package specifications loses nothing",
"The document is the union of the specifications of all packages: every key and value of every file is in it, objects being merged recursively, and equal values may be stated more than once. If two files state different values at the same place the run fails with an error, and neither the result nor failing depends on the order or names of packages and files.",
["inputs","histories","configurations"],"all sets of specification documents and all orders",
"A test merges two disjoint one-key files; union and conflict detection concern all sets of documents at all depths.",
["internal/oapi/scan/specs/scan.go",C+"merge.go",C+"container.go"],[("strict merge","specs.Scanner.Merge, container.Container.Merge")],None,["specs.Scanner.Merge","CLI output"])
p("C08","Specification files are found and their references bound to their package",
"The specifications taken are exactly the files oapi.yaml, oapi.yml and oapi.json, having an `openapi` key, in the directories of the scanned package and of the non-standard packages it imports, directly or indirectly; others are ignored, and an unreadable one is an error. A package-local reference go://#/X in such a file means X of the package whose directory holds the file; all other references keep denoting what they denote.",
["inputs","programs","configurations"],"all package trees, file names and reference strings",
"No test scans a package directory.",
["internal/oapi/scan/specs/scan.go","internal/pkgutil/info.go","internal/pkgutil/util.go"],[("file patterns and openapi key","specs.NewScanner, specs.Scanner.Scan"),("package directory","pkgutil.GetPkgPath"),("binding of local pointers","specs.Scanner.Scan")],None,["specs.Scanner.Containers, .Pointers","CLI output"])
p("C09","Container merge obeys its policy and never touches the source",
"Merging a source document into a destination keeps every key only one side has, merges objects recursively, and at every collision of non-objects uses exactly the policy: strict fails, default keeps the destination's value, override takes the source's (including null, false, lists and an object against a non-object). The source is never modified and later changes to either document are not visible in the other.",
["inputs","histories"],"all pairs of documents, policies, and sequences of merges and updates",
"Tests merge one-key documents; the recursive cases and aliasing after histories of merges are not reached.",
[C+"merge.go",C+"container.go",C+"utils.go"],[("recursive merge","container.Container.Merge"),("policies","container.MergeStrict, MergeDefault, MergeOverride"),("clone of the source","Container.Clone")],None,["container.Container after each operation"])
p("C10","Root configuration merges by its section's rule",
"Merging the root document (config) into the specification follows a fixed rule per section: info fields of the config win over the specification's; components are united, a component field stated differently... by both being an error; and for paths, externalDocs, security, servers and tags the specification's values win, the config supplying what is missing. Lists stay lists as stated by the winning side, sections only one side has are taken unchanged, and no key is invented, dropped or altered on the way from the config to the document.",
["inputs","configurations"],"all specifications and root documents",
"No test merges a root document.",
["internal/oapi/oapi.go","internal/oapi/spec/","internal/oapi/config/config.go","cmd/oapi/scan.go"],[("section table","oapi.MergeWithRoot"),("typed model of the config","internal/oapi/spec structs")],None,["oapi.MergeWithRoot","CLI output"])
p("C11","Default operations only fill gaps of the operations they match",
"A default operation whose pattern matches an operation (path, and method if the pattern names one) adds exactly the fields the operation lacks, recursively in objects, and never changes or removes a field the operation has; operations not matched, path level entries which are no operations (parameters, servers, summary, ...) and the rest of the document are unchanged, and no path or operation is created. When several patterns match, all apply, one before another in a fixed order.",
["inputs","configurations"],"all documents and all maps of patterns to default operations",
"One test applies one pattern to one path without special characters.",
["internal/oapi/oapi.go","internal/route/route.go",C+"merge.go"],[("flattening of paths","oapi.Paths"),("default merge","oapi.SetPathsDefaults")],None,["oapi.SetPathsDefaults","CLI output"])
p("C12","Route patterns match exactly the paths they describe",
"A route pattern matches the whole path and nothing else: {name}, whatever its name, stands for one or more characters other than '/', * for any characters, possibly none, and every other character, wherever it is in the pattern, only for itself. An HTTP method prefix such as GET: (any case) restricts the match to that method, case-insensitively, unless no method is given.",
["inputs"],"all patterns, methods and paths",
"The test samples fourteen matches of three patterns.",
["internal/route/route.go"],[("translation to a regular expression","route.Match")],None,["route.Match"])
p("C13","Route matching is independent of history and safe to use concurrently",
"The result of matching a pattern against a method and path is the same whatever was matched before or is being matched at the same time, by any number of goroutines, in any interleaving, and whatever failed before; concurrent use has no data race.",
["schedules","histories"],"all interleavings and histories of matches",
"Tests match sequentially from one goroutine.",
["internal/route/route.go"],[("cache of compiled patterns under a lock","route.compileCached")],[("regexen","compiled patterns","route.regexen")],["route.Match from many goroutines, race detector"])
p("C14","Go types map to the schema of their kind",
"Every Go type is described by the schema of its kind: integers, floats, strings and booleans by type and format (unsigned with minimum 0), arrays, slices and maps by their element's schema (slices, maps and pointers nullable, arrays with their length as maxItems), pointers to structs as nullable alternative to the struct, structs by an object schema or a reference to it, time.Time (as field or element) by a string, at any depth of nesting and through any named types. A type without schema (function, channel, interface, complex, ...) that is reached yields an error, not a wrong schema or a crash.",
["inputs","programs"],"all Go types built from basic, named, pointer, slice, array, map and struct types",
"The table test has 27 types of nesting depth one.",
[T],[("conversion","types.type2schema and *2schema")],None,["types.Scanner.Resolve result"])
p("C15","Struct properties are the exported fields under their tag names",
"The properties of a struct's schema are exactly its exported, not ignored fields, named by the oapi tag, else the json tag, else the field name; fields of embedded (or inline tagged) structs are included as if they were the struct's own, at any depth, unless inline:false, and are hidden by fields of an outer struct with the same name. required lists exactly the included fields tagged required, each once, under the property's name.",
["inputs","programs"],"all struct types, embeddings and tags",
"Tests cover structs with one field or one embedded struct.",
[T,"tag/tag.go"],[("field collection","types.collectStructFields, castInlineStruct"),("properties and required","types.struct2schema")],None,["types.Scanner.Resolve result","CLI output"])
p("C16","Tag options become exactly the corresponding schema keywords",
"Each option of an oapi tag sets exactly its own schema keyword to the given value (min/max, exclusive emin/emax, mulof, minlen/maxlen, pattern, minitems/maxitems, unique, minprops/maxprops, nullable, readonly, writeonly, deprecated, format, type) on fields whose kind it applies to, options not given leave the defaults of the type (e.g. its format) in place, and no option affects another field or keyword. An option value which is not of the option's type (number, integer, boolean) is an error.",
["inputs"],"all combinations of options, values and field types",
"Only the name, '-', inline and type options are exercised, each once.",
["tag/tag.go",T],[("tag parsing","tag.Parse"),("application","types.struct2schema, basic2schema, slice2schema, ...")],None,["tag.Parse","types.Scanner.Resolve result"])
p("C17","Go pointers address exactly the type at their path",
"go://pkg#/T/F/... denotes the type reached from T of exactly package pkg by following exported field names, [] for the element of a slice, array or map, and * for the target of a pointer, up to where the path re-enters a type it already went through. Every such pointer resolves, regardless of which other pointers are registered, in which order packages are scanned and how deep types nest, and any other pointer (unexported or missing field, missing type, wrong package) yields an error.",
["inputs","programs","histories"],"all packages of types, all pointers, all scan orders",
"Tests look up a dozen pointers in one package with one registered type.",
[T,"internal/oapi/scan/types/point.go","internal/oapi/scan/types/scan.go"],[("registration of pointers","types.walk, Scanner.Scan"),("lookup","types.Scanner.Resolve, pointmap.findType")],[("points","registered pointers by type","types.pointmap")],["types.Scanner.Resolve result"])
p("C18","Pointers keep their identity through text and derivation",
"Parsing the printed form of a pointer or fragment gives the same pointer: same scheme, package path and the same tokens, for tokens with any characters, '/', '~' and '%' included, and different token sequences print differently. Deriving (descendant, replaced, cloned) pointers never changes the pointer derived from, nor any other derived from it, and out of range replacement is an error.",
["inputs","histories"],"all token sequences and all histories of derivations",
"Tests parse seven strings and derive five descendants, each from a fresh fragment.",
["internal/pointer/pointer.go","internal/pointer/fragment.go"],[("escaping","escapeToken, unescapeToken, Pointer.String"),("derivation","Fragment.Descendant, RawDescendant, Replace, Clone")],None,["pointer.Parse, Pointer.String, Fragment operations"])
p("C19","Dot paths address exactly one place of a document",
"The dot path made from a sequence of keys addresses exactly the value under those keys, for keys with any characters ('.', '~' included): reading it returns that value, setting it changes that value and nothing else, and different key sequences have different paths. Extracting a key lists exactly the occurrences of the key with a scalar value, anywhere in objects and arrays, each with the path that addresses it; values set or cloned share nothing with their source.",
["inputs","histories"],"all documents, keys, and histories of operations on containers",
"Tests use one-letter keys.",
[C+"utils.go",C+"container.go"],[("path escaping","container.SliceToDotPath"),("extraction","container.ExtractKey"),("clone on write","Container.SetP, clone")],None,["container operations"])
p("C20","All output formats state the same document",
"The yaml, json, json:pretty and go formats of a document all decode to exactly that document (for go: a compilable file whose OpenAPIJsonSpec constant is the JSON text), for any strings in keys and values. In all of them openapi, info, components and paths, if present, come in this order; an unknown format is an error.",
["inputs"],"all documents and formats",
"A test marshals a two-key document.",
["oapi.go","temp.go",C+"sort.go"],[("formats","oapi.Format"),("key order","container.SortMapMarhsaler, MapSlice"),("go file","produceGoFile")],None,["CLI output"])
p("C21","Each package is scanned once, after what it imports, and errors are all reported",
"Scanning visits every non-standard package in the import graph of the given packages exactly once, a package only after all the packages it imports, and no standard library package. An error of a package (load error or scan failure) never prevents other packages from being visited, and the result is an error naming every one of them; without any the result is no error.",
["inputs","fault_sequences"],"all import graphs and all sets of failing packages",
"No test scans an import graph.",
["internal/pkgutil/util.go"],[("depth first traversal","pkgutil.Scan"),("error aggregation","newSingleError")],[("seen","visited packages","pkgutil.Scan")],["calls of pkgutil.Scanner.Scan and result of pkgutil.Scan"])
p("C22","Export comments declare exactly what they say",
"A comment //openapi:schema NAME PTR exports the type PTR as component NAME, and with one argument under the last element of the pointer; a PTR without scheme or fragment is a type (path) of the package containing the comment, anywhere in any of its files. Comments not starting with //openapi declare nothing; malformed ones (unknown command, missing, empty or surplus arguments, unparsable pointer) make the scan fail.",
["inputs","programs"],"all comments in all packages",
"No test parses a comment.",
["internal/oapi/scan/cmds/"],[("comment recognition","cmds.ParseCommentGroup"),("parsing","cmds.Parse, NewCmdSchema"),("collection","cmds.Scanner.Scan, ExportedComponents")],None,["cmds.Scanner.ExportedComponents","CLI output"])
p("C23","Configuration sources have fixed precedence",
"A command line flag wins over the configuration file, which wins over the file it extends (object by object, recursively), which wins over the built-in default; a setting stated nowhere has its default, and one stated in one place only is taken from there unchanged. Relative paths are relative to the file's directory for extends and dir, to the scanned directory for a configured output, and to the working directory for flags.",
["inputs","configurations"],"all combinations of flags, config and extended config",
"No test reads a configuration.",
["internal/oapi/config/config.go","cmd/oapi/config.go","cmd/oapi/scan.go"],[("extends","config.extends"),("precedence","main.Config.full")],None,["config.ReadFile","CLI runs"])
p("C24","A run writes the complete document and exits 0, or fails and writes nothing",
"A run that exits 0 has written exactly the complete document, and nothing else, to the chosen destination (stdout, stderr, or the file, created or replaced whatever its former length). A run that fails at any stage (flags, configuration, loading, scanning, merging, resolving, formatting, writing) exits non-zero, writes no document, and leaves an existing output file as it was; a run that is killed, at any time, leaves the output file as it was or with the complete document.",
["inputs","fault_sequences","histories","crash_points"],"all stages at which a run can fail or be stopped, all prior states of the output",
"No test runs the command.",
["cmd/oapi/main.go","cmd/oapi/config.go","internal/logging/logging.go","oapi.go"],[("fatal errors exit","logging.Fatal"),("output is opened last","main.main")],None,["exit status, stdout, stderr and output file of the command"])
p("C25","Through the library, a scan depends on its options and the files only",
"oapi.Scan with given options (directory, root schema, default operations, overrides; of options of one kind the last counts, without a directory the working directory is scanned) gives the document which the files of that directory, as they are then, and these options state, or the error they call for: whatever scans and formats the process made before, of the same or of other directories, and whatever it does at the same time on other goroutines. A scan changes no file and nothing of the options, so that their values can be shared by scans, and a scan whose context is cancelled before it starts fails while one cancelled later fails or gives the whole document; oapi.Format states the document of a scan in the given format, or fails if there is no such format, as often and as concurrently as it is called, always in the same bytes and without changing it.",
["inputs","histories","schedules"],"all sequences and overlaps of scans, formats and cancellations in a process, all directories, options and changes of files between scans",
"No test calls Scan or Format.",
["oapi.go","temp.go","internal/container/sort.go","internal/oapi/oapi.go","internal/oapi/scan/types/types.go","internal/pkgutil/util.go","internal/route/route.go"],[("options","WithDir, WithOverride, WithDefOps, WithRootSchema"),("scan","oapi.Scan"),("formats","oapi.Format"),("schemas of known types","types.refStdMapping"),("compiled patterns","route.compileCached")],[("regexen","patterns compiled so far","internal/route/route.go"),("refStdMapping","schemas of known types","internal/oapi/scan/types/types.go"),("stdpkgs","packages of the standard library","internal/pkgutil/util.go")],["results of oapi.Scan and oapi.Format in one process","values given to the options","files of the scanned directories"])
P[9]["statement"]=P[9]["statement"].replace("a component field stated differently... by both being an error","a component field stated by both being an error")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x["statement"].count('. ')<3,(x["id"],x["statement"].count('. '))
print(len(P))
