import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
IN="source-to-source instrumentation in an overlay copy (yield points, simulated sync, controlled map order); no hook in /repo"
p("C01","Validators can be shared: concurrent validations do not affect each other",
 "Any number of goroutines may validate at the same time with the same validators, constraints and reference maps. Every call returns the verdict its own input would get if it were the only call ever made on a freshly built equal validator, a returned error never changes afterwards, an input for which no default applies is not written to, and no call panics, blocks forever or takes part in a data race.",
 ["schedules","inputs"],"every interleaving of concurrent Validate calls over every constraint kind, including references and recursive validators, whether caches are cold or warm",
 "All existing tests call Validate from one goroutine; none runs two calls at once or checks for races.",
 ["array.go","basic.go","bool.go","combinations.go","enum.go","jsval.go","number.go","object.go","reference.go","string.go","structinfo.go"],
 [("constraints are read-only during validation","*.Validate"),("property table copied under a lock before use","object.go ObjectConstraint.Validate"),("lazy reference resolution under a lock","reference.go Resolved"),("struct information registry lock","structinfo.go")],
 ["return value of Validate","the input value after the call","Go race detector","scheduler deadlock detection"],
 [dict(name="property/required/dependency tables",meaning="rules of an object constraint",where="interface.go ObjectConstraint"),dict(name="resolved",meaning="cached target of a reference",where="reference.go"),dict(name="structInfoRegistry",meaning="process-wide struct layout cache",where="object.go")],IN)
p("C02","Defaults fill in exactly the missing optional properties of that input",
 "When validation of an object succeeds, every property that was absent, not required and has a default now holds that default in the caller's own map, struct or accessor object, at every nesting level, and every property that was present is unchanged. If storing a default fails, validation reports an error. Concurrent validations that share the validator and its defaults each see only their own input filled in; a default that is an object or a list is not shared between inputs.",
 ["schedules","inputs","fault_sequences"],"every interleaving of validations sharing a validator, every mix of absent and present properties in maps, structs with optional fields and objects with accessor methods, and every failure of the store operation",
 "Tests apply one default to one field of one struct from one goroutine and never make the store fail.",
 ["object.go","maybe.go","basic.go","reference.go"],
 [("default applied on the not-present branch only","object.go ObjectConstraint.Validate"),("store through map, optional field or accessor, error propagated","object.go setProp"),("default seen through a reference","reference.go HasDefault/DefaultValue")],
 ["input value after Validate","return value of Validate"],None,IN)
p("C03","The shared reference map behaves like one atomic map",
 "Registering, fetching and counting references on a reference map from any number of goroutines is equivalent to some sequential order of those calls that respects real time: a fetch returns the constraint most recently registered under that name, fails exactly when none was registered, and the count equals the number of distinct registered names. This holds whichever validator sharing the map is used for the call, and without data races.",
 ["schedules","histories"],"every interleaving of register, fetch and count calls from several goroutines, through the map itself or through validators sharing it",
 "No test calls the reference map concurrently, and none calls the count at all.",
 ["reference.go","jsval.go"],
 [("mutex around every access, lazily created map","reference.go ConstraintMap")],
 ["return values of SetReference, GetReference, Len"],[dict(name="refs",meaning="name to constraint",where="reference.go ConstraintMap")],IN)
p("C04","References resolve once, to one target, and survive resolver failures",
 "A reference asks its resolver until one resolution succeeds and from then on always denotes that same constraint for every goroutine, without asking again. While the resolver fails, validating a value through the reference fails with an error instead of accepting the value, and the failure is not remembered: the first use after the resolver recovers succeeds. A resolver that panics leaves the reference usable.",
 ["schedules","fault_sequences","histories"],"every sequence of resolver errors, panics, delays and successes, interleaved with concurrent uses of the same reference",
 "Tests only use references whose resolver always succeeds, from one goroutine.",
 ["reference.go"],
 [("resolved target cached under the lock, only on success; lock released by defer","reference.go Resolved")],
 ["return values of Resolved, Validate, HasDefault, DefaultValue","calls received by the resolver"],[dict(name="resolved",meaning="cached target",where="reference.go ReferenceConstraint")],IN)
p("C05","Rules added to an object while it validates are never lost or torn",
 "Properties, pattern properties, required names and dependencies may be added to an object constraint while other goroutines validate with it or query it. Every validation enforces every rule whose addition completed before the validation began, none whose addition began after it ended, and each rule in between either fully or not at all; the rules for named properties that it enforces are those of one moment; queries always see all completed additions, concurrent additions are all kept, and nothing crashes, races or deadlocks.",
 ["schedules","histories"],"every interleaving of rule additions, queries and validations on one object constraint",
 "Tests finish building every validator before using it, on one goroutine.",
 ["object.go"],
 [("proplock, reqlock, deplock around the rule tables; properties copied before use","object.go")],
 ["return values of Validate, IsPropRequired, GetPropDependencies, GetSchemaDependency"],[dict(name="properties, patternProperties, required, propdeps, schemadeps",meaning="rule tables",where="interface.go ObjectConstraint")],IN)
p("C06","The verdict never depends on map iteration order",
 "For a fixed schema or hand-built validator and a fixed input, building and validating give the same accept or reject verdict, and after acceptance the same final input with defaults applied, whatever order the language picks for iterating over any map involved.",
 ["schedules","inputs"],"every iteration order of every map in the schema, the validator and the input, over all validators and inputs",
 "A test run samples one random iteration order; a verdict that flips in a minority of orders passes.",
 ["object.go","structinfo.go","builder/builder.go","builder/object.go"],
 [("each property checked against every rule that applies to it","object.go ObjectConstraint.Validate"),("defaults applied without influencing sibling checks","object.go ObjectConstraint.Validate"),("reference worklist reaches a fixed point","builder/builder.go compileReferences")],
 ["verdict of Validate","input value after Validate","success of Build"],None,IN)
p("C07","Generated code is reproducible byte for byte",
 "Generating code for equal validators always yields the same bytes, whatever order maps are iterated in, wherever objects lie in memory, and whichever equal copy of the schema the validators were built from.",
 ["schedules","inputs","programs"],"every map iteration order during building and generation, over all validators, including sets of several validators sharing references",
 "Tests generate code once and look for substrings; the CI diff samples one iteration order for one schema.",
 ["generator.go","builder/builder.go"],
 [("names, references, properties, patterns, required names and dependencies sorted before printing","generator.go")],
 ["bytes passed to the writer"],None,IN)
p("C08","Generating code does not change the validators it prints",
 "Generating code leaves every validator, its name and the caller's list of validators as they were, so any number of generations, in any grouping and order, and also concurrent with validation or other generations, give the output each would give on its own, and validation behaves the same before, during and after.",
 ["schedules","histories"],"every history and interleaving of generate and validate calls over shared validators",
 "Tests call the generator once per validator and never use the validator afterwards.",
 ["generator.go","jsval.go"],
 [("names chosen and validators ordered on private copies","generator.go Process")],
 ["bytes written","validator names, order of the argument list, verdicts"],[dict(name="Name",meaning="validator name",where="interface.go JSVal")],IN)
p("C09","Code generation reports success only when all output was written",
 "If generation returns no error, the writer has accepted the complete generated source. If the writer fails at any point, generation returns an error; if the validators themselves cannot be printed, it returns an error and writes nothing. After a failure the same generation repeated on a healthy writer produces the complete output.",
 ["fault_sequences","inputs"],"every write failure at every byte offset, every panic of the writer, and unprintable validators",
 "Tests write to an in-memory buffer that never fails.",
 ["generator.go"],
 [("source assembled and formatted in memory, then written, result of the write returned","generator.go Process")],
 ["return value of Process","bytes accepted by the writer"],None,None)
p("C10","The code-generating commands succeed only with complete output on disk",
 "The jsval command exits with status 0 only if the output file (or standard output) received the complete generated source; any failure to open, read or write a file or to close the output file gives a non-zero status and an error message. When the schema cannot be read, decoded or turned into code, an existing output file keeps its contents. The repository's own generator commands likewise never report success after a failed read, a failed write or a failed close of an output file.",
 ["fault_sequences","crash_points","configurations"],"every single or combined file-system failure at every operation and byte offset: missing files, permission and I/O errors, short reads, full disk, failing close, in every combination of command options",
 "The commands have no tests at all.",
 ["cmd/jsval/jsval.go","internal/cmd/gentest/gentest.go","internal/cmd/genmaybe/genmaybe.go","generator.go"],
 [("error checks after every file operation, exit status from the main function","cmd/jsval/jsval.go _cli")],
 ["exit status","contents of the output file","standard error"],None,"the os, log and io/ioutil imports of the commands and of the schema reader are redirected to a simulated file system in the overlay copy; no hook in /repo")
p("C11","The playground answers each request correctly under load and broken clients",
 "Concurrent requests to one server are independent: every request gets exactly one response, equal to the response the same request gets on an idle server; a schema that the library can turn into code is answered with success and that code, any other body with failure and a message. A request body that breaks off is never answered with success, and clients that disconnect, stall or send damaged bodies neither crash a handler nor change the answers to others.",
 ["schedules","fault_sequences","inputs"],"every interleaving of requests, every point at which a body breaks off or a client stops reading, and arbitrary damage to bodies",
 "The server has no tests.",
 ["server/server.go","builder/builder.go","generator.go"],
 [("per-request buffers, lazily built page template under a lock, errors mapped to JSON replies","server/server.go")],
 ["status, headers and body of each response","handler panics"],[dict(name="templates",meaning="lazily built page",where="server/server.go Server")],IN)
p("C12","Optional fields track presence and value through any history",
 "An optional value is present exactly if it was set, decoded or defaulted successfully since its last reset, and then holds the last value so stored; a set or decode that fails changes nothing. Encoding a present value and decoding it again gives the same value, and validation treats exactly the present fields as provided. This holds when records are decoded from streams that stall, break off or are damaged at any byte, and when many goroutines do so with their own records.",
 ["histories","fault_sequences","schedules"],"every history of set, reset, decode, encode and validate on every optional type, with stream faults at every byte and concurrent independent records",
 "Tests perform one or two operations per type on intact input; no test decodes an optional time.",
 ["maybe.go","internal/cmd/genmaybe/genmaybe.go","object.go","structinfo.go"],
 [("validity flag set together with the value, decode into a temporary","maybe.go"),("invalid optional fields skipped","structinfo.go PropNames, object.go Validate")],
 ["Valid, Value, JSON encoding","verdict and defaults of Validate"],None,IN)
p("C13","The first validation of a struct type is as right as every later one",
 "Validating a struct gives the verdict of the equivalent property map, no matter which goroutine, pointer or value form, or earlier type first made the library inspect that struct type, and no matter how many goroutines meet new types at the same moment. Distinct struct types never share property information.",
 ["schedules","histories","programs"],"every interleaving of first and later validations over every set of struct types, including unnamed types, types with equal names, structs embedded by value (with hidden and equally named fields) and optional fields",
 "Tests use three struct types in total, each on one goroutine.",
 ["structinfo.go","object.go"],
 [("registry lookups and insertions under a read-write lock, entries immutable once stored","structinfo.go StructInfoRegistry")],
 ["verdict of Validate","Go race detector"],[dict(name="structInfoRegistry",meaning="type to property information",where="object.go")],IN)
p("C14","A panic or abort in user code never wedges the library",
 "If code supplied by the user and called during validation or generation (resolvers, custom constraints, property accessors, optional values, writers) returns an error, panics or ends its goroutine, no lock stays held: every other goroutine, and every later call on the same validators, still completes with the right verdict within a bounded number of steps. User code may itself call back into the same validator without deadlock (except a resolver that needs the very reference it is resolving).",
 ["fault_sequences","schedules"],"every callback failing, panicking, exiting or re-entering at every call, interleaved with concurrent calls",
 "No test supplies failing, panicking or re-entrant user code.",
 ["reference.go","object.go","structinfo.go","generator.go"],
 [("deferred unlocks; rule tables copied so no lock is held while user code runs","object.go, reference.go")],
 ["completion of all calls","locks held at quiescence","verdicts after the fault"],None,IN)
p("C15","Building is read-only and repeatable, also concurrently",
 "Building validators from one schema and context document, any number of times, from any number of goroutines and with one shared builder, leaves schema and document unchanged and gives validators that accept exactly the same inputs and print the same code. Each build follows the schema and document as they are then; changing them later, or changing one of the validators, does not change the validators that were built. A build that fails returns an error and influences no other build.",
 ["schedules","histories"],"every interleaving and history of successful and failing builds over shared schemas and context documents",
 "Tests build each schema once, on one goroutine.",
 ["builder/builder.go","builder/array.go","builder/number.go","builder/object.go","builder/string.go","builder/reference.go"],
 [("per-build context, type list copied before sorting, fresh constraints per build","builder/builder.go")],
 ["schema and document before and after","verdicts and generated code"],None,IN)
p("C21","A validator always applies its current rules, whatever it was used for before",
 "Constraints and validators may be changed between uses: limits, patterns, formats, enumerations, defaults, items, properties, dependencies, alternatives, the root, the name, the reference map, and registrations that come late. After any history of changes and uses (accepted, rejected and panicking validations, generations, queries; one after the other or at once between the changes), every use gives what it gives on fresh constraints that were given only the settings now in force: no earlier use, no earlier setting and no other validator leaves a trace, and a change to a constraint is seen through every validator, container and reference that leads to it. (A reference that was resolved keeps its target.)",
 ["histories","schedules"],"every history of changes and uses over shared and nested constraints of every kind, with the uses between two changes interleaved in any way and with other histories going on",
 "Tests configure each constraint completely before they use it and never change it afterwards.",
 ["array.go","basic.go","bool.go","combinations.go","enum.go","jsval.go","number.go","object.go","reference.go","string.go","generator.go"],
 [("settings read anew by every validation; nothing derived from them is kept","Validate methods"),("a reference keeps the target, not what was derived from it","reference.go Resolved")],
 ["verdicts and final inputs of Validate","generated code","HasDefault, DefaultValue, IsPropRequired, GetPropDependencies, Constraints, Reduce, GetReference, Len"],None,IN)
p("C16","Validators enforce what their JSON Schema says",
 "For every supported schema and every decoded JSON input, the built validator accepts the input exactly if it satisfies the schema's keywords.",
 ["inputs","programs"],"all schemas and inputs","Tests sample a dozen inputs.",
 ["builder/builder.go","object.go","array.go","string.go","number.go"],[("keyword by keyword translation","builder/*.go")],["verdict of Validate"])
p("C17","Generated code validates like the validator it was generated from",
 "For every validator the generator prints without error, compiling and running the printed code yields a validator with the same verdicts and defaults.",
 ["programs","inputs"],"all validators and inputs","One schema is generated and one input is checked.",
 ["generator.go"],[("one printer per constraint kind","generator.go")],["verdicts of the compiled output"])
p("C18","Validation is total: no input makes a validator panic",
 "Validating any value, of any type, with any validator built from a schema returns a verdict and never panics or recurses without bound on finite input.",
 ["inputs"],"all values and validators","Tests use well-typed inputs.",
 ["object.go","array.go","enum.go","number.go","string.go","reference.go"],[("kind checks before reflection","*.Validate")],["panics"])
p("C19","JSON references denote the subschema they point to",
 "Every reference in a schema validates exactly like the subschema at that position of the context document, and an unresolvable reference makes the build fail.",
 ["inputs","programs"],"all schemas with references","Tests contain two references.",
 ["builder/builder.go","builder/reference.go","reference.go"],[("worklist over referenced names","builder/builder.go compileReferences")],["verdict of Validate","error of Build"])
p("C20","Schemas without a type get the type their keywords imply",
 "A schema without a type keyword is treated as every type for which it carries a keyword, and as accepting everything when it carries none.",
 ["inputs"],"all schemas without type","Nine schemas are tested.",
 ["builder/builder.go"],[("one predicate per type","builder/builder.go guessSchemaType")],["verdict of Validate"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
