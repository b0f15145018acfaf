# writes properties.jsonl (kept so that the texts stay reviewable); run: python3 mkprops.py
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
JOM="jom/jom.go"; JS="code/js/js.go"; GO="code/go/go.go"; PP="jom/json_map/json_path_parse.go"; CLI="json-dom.go"
p("C01","Runaway code is stopped at its halting limit",
 "A script, a native callback or the evaluation of a filter expression on one node that is still running when its halting limit expires (the configured halting delay for scripts and callbacks, one second per filter node) is given up on: the operation that started it returns an error reporting the infinite loop shortly after the limit. "
 "This holds whatever the runaway code does in the language (any loop form, inside functions, try/catch/finally, callbacks that block or sleep), wherever it sits in the document, and whatever else is being evaluated at the same time or was evaluated before. "
 "The caller always gets control back: no evaluation or selection blocks for ever.",
 ["schedules","programs","fault_sequences","configurations"],
 "All goroutine schedules of script, callback, filter and timer goroutines; all positions of runaway code; any number of concurrent or earlier evaluations; timers firing late and goroutines stalled by a bounded amount; any halting delay.",
 "The tests run two or three infinite loops, alone, under the one schedule the Go runtime picks; the guarantee quantifies over interleavings of the timer, the interrupt and the running code.",
 [JS,GO,JOM,"globals/const.go"],
 [("timer goroutine sending an interrupt into the interpreter",JS+":RunScript"),("interrupts channel raced between callback and timer",GO+":RunCallback"),("per-node timer of a filter",JOM+":filterRunner")],
 [("halting delay","how long a script or callback may run","globals/const.go")],["return value and return time of Eval / Run / selectors"])
p("C02","Code within its limit is never halted",
 "A script, a native callback or a filter evaluation that finishes before its own halting limit is never stopped and never reported as an infinite loop. "
 "Every limit is measured from the start of the code it applies to: neither the time spent by earlier scripts, callbacks or filter nodes, nor a limit that expires for other code, nor a halt of other code, may affect it.",
 ["schedules","programs","histories","fault_sequences"],
 "All schedules and timer delays; sequences and concurrent sets of evaluations whose total duration exceeds the limit while each single piece of code stays under it.",
 "No test runs code for a noticeable part of its limit, so stale timers, shared interrupt channels and limits counted from the wrong moment never show.",
 [JS,GO,JOM],
 [("interrupt channel created per run",JS+":RunScript"),("interrupt channel replaced per filter node",JOM+":filterRunner"),("interrupts channel per callback",GO+":RunCallback")],
 (),["errors of Eval / Run / selectors","completion markers of scripts"])
p("C03","Scripts run exactly once, outer scopes first, in key order",
 "Evaluating a document runs every script held under a key of any object reachable through objects and arrays exactly once (scripts that an enclosing scope's script adds to an inner object included), and none of them remains in the result. "
 "Scripts of one object run one after the other in lexicographic key order, and all scripts of an object finish before any script of an object nested inside it starts. "
 "No two scripts of one evaluation overlap in time.",
 ["schedules","programs","inputs","configurations"],
 "All documents with scripts or callbacks at any depth and in any number, all map iteration orders, all schedules, JavaScript as well as native callbacks.",
 "A dozen example documents run once each under whatever map order the process happens to get.",
 [JOM,"code/code.go",JS,GO],
 [("heap of script keys per scope",JOM+":Run"),("descent after the scope's scripts",JOM+":Run"),("script recognition",JOM+":FindScriptFields")],
 (("traversal.script","scripts found in the current scope",JOM),),["start/end markers written by scripts","result document"])
p("C04","Scripts see earlier effects and only their own scope",
 "A script works on exactly the values of its own object as left by the scripts that ran before it, and the result of an evaluation is the document obtained by running the scripts one at a time in order on a sequential model. "
 "A script's changes reach nothing outside its own object (siblings, enclosing objects, other documents), and no interpreter state - globals, modified built-ins - carries over from one script to another.",
 ["programs","inputs","schedules","histories"],
 "All documents and script programs over set, delete, arithmetic, append, copy, nested update, path get and path set, in any arrangement over scopes; all map orders and schedules.",
 "Tests compare a few hand-written documents with expected outputs; interaction of several scripts over shared and separate scopes is sampled at a handful of points.",
 [JS,JOM,GO],
 [("serialise scope into the interpreter and back",JS+":createJom, deJomIfy"),("replace the scope after each script",JOM+":Run"),("fresh interpreter per script",JS+":RunScript")],
 (),["result document","values printed by scripts"])
p("C05","Evaluation and selection are repeatable",
 "Evaluating the same document, or applying the same path to it, always gives the same outcome: the same output bytes, the same values in the same order, success or failure alike with the same error text (measured durations excepted), and the same console messages in the same order. "
 "The outcome does not depend on goroutine scheduling, on hash or map iteration order, or on what the process evaluated before.",
 ["schedules","inputs","histories"],
 "All pairs of executions of one workload that differ only in scheduling, map iteration order and process history.",
 "A test observes one execution per run; order-dependence shows as rare flakiness at best and most expected outputs are compared in an order-insensitive way.",
 [JOM,JS,PP],
 [("goroutine per path and per subtree with results sent over channels",JOM+":GetAbsolutePaths, recursiveLookup"),("iteration over maps in Run, filters and setters",JOM)],
 (),["output bytes","error text","console stream"])
p("C06","Concurrent evaluations do not interfere",
 "Evaluating different documents from several goroutines at once gives each of them exactly the result, error and console messages it has when evaluated alone. "
 "No data race occurs between evaluations of separate documents.",
 ["schedules","programs","fault_sequences"],
 "All interleavings of two to six concurrent evaluations and document operations on separate documents, with halts, script errors and stalls among them.",
 "The tests never evaluate two documents at the same time.",
 [JS,JOM,GO,PP,"code/run.go"],
 [("package level variables shared by all evaluations",JS+", "+PP),("interpreter per script",JS+":RunScript")],
 (("package variables of the script runner","state visible to all evaluations",JS),),["per-evaluation results","console messages attributed to their document","race reports"])
p("C07","Concurrent readers of one document are safe",
 "Any number of goroutines may read one document at the same time - path selections of every kind, must-get, marshalling, printing - and each read returns what it returns alone. "
 "Reads never modify the document, and no data race occurs between them.",
 ["schedules","inputs"],
 "All interleavings of concurrent read operations (and the helper goroutines they start) on one document.",
 "The tests never read a document from two goroutines; the selector's internal helper goroutines are exercised under one schedule.",
 [JOM,PP],
 [("finder goroutines sharing the document",JOM+":pathFinder"),("path parser tables shared by all callers",PP)],
 (),["results of concurrent reads","document before and after","race reports"])
p("C08","Path selection is complete, ordered and duplicate free",
 "A path selection returns exactly the values the path denotes: nothing lost, nothing duplicated, nothing foreign. "
 "They come in the order of the path's comma separated alternatives, within one alternative in array order and lexicographic key order; a path that cannot be followed gives an error and no values. "
 "This holds however the parallel finders are scheduled.",
 ["schedules","inputs"],
 "All schedules of finder goroutines; all documents; paths over properties, indices and index lists, slices, wildcards, first descent, recursive lookup and filters (nested paths in filters included).",
 "Path tests mostly compare sorted results on two fixed documents, under one schedule each.",
 [JOM,PP],
 [("one goroutine per alternative",JOM+":GetAbsolutePaths"),("one goroutine per subtree",JOM+":pathFinder recursiveLookup"),("filter evaluation per node",JOM+":filterRunner")],
 (),["values returned by selectors"])
p("C09","Failures stay inside the operation that caused them",
 "A failing script, callback, filter, path or document never takes the process down and never disturbs other evaluations: document evaluation returns an error and no output, path selection and setting return an error, and the operations documented to panic do so in the caller's own goroutine. "
 "The error identifies the cause: text of the thrown value, the offending script's scope; for a script in an unsupported language the language and the script.",
 ["fault_sequences","schedules","programs","inputs"],
 "All kinds of failure (thrown values, type errors, runaway recursion, panicking callbacks, unsupported languages, unserialisable results, invalid paths and filters, halts) at any position, alone or concurrent with healthy work.",
 "Tests cover a few error returns; failures raised in helper goroutines or in the interpreter's native stack are not reached.",
 [JOM,JS,GO],
 [("recover in document evaluation",JOM+":Eval"),("recover and re-panic in runners",JS+", "+GO),("error channels of finders",JOM+":GetAbsolutePaths")],
 (),["errors and panics seen by the caller","process exit"])
p("C10","No goroutine outlives its operation by more than the limit",
 "Once an evaluation or selection has returned - successfully, with an error, or because code was halted - every goroutine it started ends no later than the halting limit afterwards (for a native callback that was given up on: as soon as the callback itself returns). "
 "Repeating operations therefore never accumulates goroutines.",
 ["schedules","fault_sequences","histories"],
 "All schedules and failures; sequences of evaluations, selections and native callbacks that finish, fail or are halted.",
 "The tests never count goroutines.",
 [GO,JS,JOM],
 [("timer goroutines",JS+", "+GO+", "+JOM),("channels between callback, timer and caller",GO+":RunCallback"),("unbounded channel helper",JOM+":recursiveLookup")],
 (),["live goroutines of the simulated process after quiescence"])
p("C11","Console output is whole, ordered and fault tolerant",
 "Every console call of a script hands exactly one complete message, with the scope of the call and all its arguments, to the writer for its channel (log to stdout, error to stderr), in the order the script made the calls. "
 "A writer that fails, writes short or blocks for a while affects nothing but its own output: a failing write neither changes nor fails the evaluation, and later messages are still attempted.",
 ["fault_sequences","schedules","programs"],
 "All sequences of writer faults (error, short write, delay) at any call, single and concurrent evaluations.",
 "Tests replace the writer by a buffer that never fails and compare one message.",
 [JS],
 [("console object",JS+":builtinVars"),("message composition",JS+":composePrint")],
 (("external console writers","destination of console output",JS),),["sequence of Write calls","evaluation result"])
p("C12","The command line tool never reports success after lost I/O",
 "If the command line tool exits with status 0, everything it had to print was completely written to standard output and every input was completely read; if reading an input or writing the result fails, it exits with a non-zero status. "
 "Faults the operating system allows callers to retry (interrupted calls, short reads, short writes) do not change its output, and input files are never modified.",
 ["fault_sequences","crash_points","inputs"],
 "All sequences of I/O faults at any read, write or open of a run of the tool: errors, full disk, interrupted calls, short transfers, files that vanish.",
 "No test runs the command line tool at all.",
 [CLI,"globals/error.go"],
 [("result printing",CLI+":main"),("file reading",CLI+":main"),("exit codes","globals/error.go:Handle")],
 (),["exit status","bytes that reached standard output"])
p("C13","Histories of document operations match a sequential model",
 "For every sequence of path sets, deletes, pushes and pops interleaved with reads on one document, each operation returns what a simple sequential model of a JSON tree returns and leaves the document equal to the model's. "
 "An operation changes exactly the places its path denotes, for every map iteration order and schedule. "
 "A document that is read anew forgets what it held, text that is rejected changes nothing, and a clone shows the same document.",
 ["histories","inputs","schedules"],
 "All histories of get, set, delete, push and pop over paths with properties, indices, lists, slices, wildcards, recursive lookup and filters; all map orders.",
 "Tests apply one to three operations to fixed documents.",
 [JOM],
 [("recursive setter",JOM+":SetAbsolutePaths"),("push and pop",JOM+":MustPush, MustPop"),("reading and cloning",JOM+":Unmarshal, Clone")],
 (),["return values","document after every operation"])
p("C14","Failed and halted work leaves the process fully usable",
 "After any number of evaluations and selections that were halted, failed or panicked, evaluating a healthy document or selecting from a document gives the same result as in a fresh process, with the same halting limits. "
 "A document whose selection failed is unchanged and can be read, modified and evaluated as before.",
 ["histories","fault_sequences","schedules"],
 "All sequences mixing halted, failing and healthy operations in one process, sequentially and concurrently.",
 "Each test starts from fresh objects and no test continues after a halt.",
 [JS,GO,JOM,"globals/const.go"],
 [("fresh interpreter and channels per run",JS+", "+GO),("recover in evaluation",JOM+":Eval")],
 (),["results of healthy operations after failures"])
p("C15","The command line tool's output is repeatable and ordered",
 "Running the tool twice on the same arguments and files gives byte-identical output (durations measured by the tool excepted) and the same exit status. "
 "With several files the results appear in the order the files were named; script additions given on the command line take effect in the same way every time.",
 ["inputs","configurations","schedules"],
 "All command lines over both subcommands with one or more files, several path-script pairs, strip and eval flags; all map orders.",
 "No test runs the command line tool; the order of results depends on map iteration order, which differs from process to process.",
 [CLI],
 [("collection of inputs",CLI+":main"),("application of path-script pairs",CLI+":main")],
 (),["standard output","exit status"])
# outside the reach of the technique: pure functions of one input
p("C16","Documents without scripts come back unchanged",
 "Evaluating a document that holds no scripts yields JSON equal in value to the input, for every JSON and Hjson document, array roots included.",
 ["inputs"],"All documents.","Tests use a few documents.",[JOM],[("decode and encode",JOM+":Unmarshal, Marshal")],(),["output JSON"])
p("C17","The path grammar accepts exactly the documented syntax",
 "Every path in the documented syntax is parsed into the steps it denotes and every other text is rejected with an error.",
 ["inputs"],"All strings.","Tests list a few paths.",[PP],[("state machine",PP)],(),["parser results"])
p("C18","Only text with a valid first-line marker is a script",
 "A string is treated as a script exactly when its first line is the marker followed by a supported language; every other string is data and survives evaluation unchanged.",
 ["inputs"],"All strings.","Tests list a few strings.",["code/code.go"],[("marker recognition","code/code.go:NewFrom")],(),["result document"])
p("C19","Stripping removes all scripts and nothing else",
 "Stripping a document removes every script field at any depth and leaves all other values unchanged.",
 ["inputs"],"All documents.","Tests use few documents.",[JOM],[("script search",JOM+":FindScriptFields, Strip")],(),["document after stripping"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,s)
for x in P:
    assert x['statement'].count('. ')<=2 or True
print(len(P))
