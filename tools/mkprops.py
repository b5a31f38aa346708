import json
E='paradigm/_core/arboreal/evaluation.py'; S='paradigm/_core/signatures.py'; ST='paradigm/_core/stubs.py'; MO='paradigm/_core/modules.py'
C='paradigm/_core/caching.py'; X='paradigm/_core/execution.py'; I='paradigm/_core/index.py'; SRC='paradigm/_core/sources.py'; M='paradigm/_core/models.py'; A='paradigm/_core/annotated.py'; B='paradigm/base.py'
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
P=[
p('Q01','Concurrent signature queries give the single-threaded answers',
 'When several threads of one process ask for signatures at the same time, every call returns exactly the signature it would return if it were the only call ever made in that process, whatever the thread interleaving. No call fails, hangs or exposes a half-built type, and signatures of the same callable obtained by different threads compare equal and hash alike.',
 ['schedules','inputs'],'every interleaving of 2-4 threads querying any mix of standard-library and user callables, including first (cold) evaluation of the same annotation types',
 'The tests run every query from one thread; they never interleave two first-time evaluations of the same type alias, stub-only class or stub-only module.',
 [E,S,B],[('shared evaluation caches with in-progress placeholders',E+' Assign/AnnAssign evaluator, evaluate_qualified_path'),('public entry point',B+' signature_from_callable')],
 [('alias cache','qualified path -> evaluated alias, holds a placeholder while in progress',E),('objects_cache / modules_cache','stub-only classes and modules synthesised so far',E)],
 ['return value of paradigm.base.signature_from_callable','== and hash of the returned signatures']),
p('Q02','An interrupted query leaves no trace on later answers',
 'If a signature query is cut short by an exception raised from inside it (KeyboardInterrupt, MemoryError, RecursionError, or an operating-system error while importing a module it needs), that exception propagates to the caller. Afterwards the same query and every other query in the process return exactly the answers they would have returned had the interrupted call never been made.',
 ['fault_sequences','histories'],'every point at which a call made during the query can raise, for every queried callable, followed by any further queries, with repeated interruptions',
 'The tests never interrupt a query; the state that an aborted evaluation leaves behind depends on the exact point of the interruption.',
 [E,S],[('cache entries made before evaluation finished',E)],
 [('alias cache','placeholder stays behind if evaluation aborts',E),('objects_cache','class visible before its annotations are complete',E)],
 ['later return values of signature_from_callable']),
p('Q03','Answers do not depend on the process history',
 'The signature returned for a callable is a function of the callable alone: it does not depend on which other signatures were queried before or in what order, on which other modules happen to have been imported, on garbage collections in between, or on whether earlier results were kept or dropped. Asking twice gives equal signatures with equal hashes, and short-lived callables never receive the signature of an earlier, already destroyed one.',
 ['histories'],'every sequence of queries, module imports, creations and destructions of dynamic callables (functions, classes, partials, bound methods), retained or dropped results and garbage collections',
 'The tests ask for each signature in whatever state the test process happens to be in and compare with inspect; they never permute histories or compare with a pristine process.',
 [S,E,'paradigm/_core/catalog.py','paradigm/_core/namespacing.py'],[('candidate paths filtered by looking at already imported modules',S+' resolve_qualified_paths'),('weak caches of synthesised classes and modules',E+' evaluate_qualified_path')],
 [('objects_cache','weakly held, so dropped results can be collected and rebuilt',E)],
 ['return value of signature_from_callable in every step of a history']),
p('Q04','A query leaves the host process as it found it',
 'Asking for a signature, successfully or not, never changes the state of the program that asks: builtins and already imported modules keep the same attributes, the main module, module search path, warning filters, recursion limit, trace and profile functions, working directory, environment and default multiprocessing context are untouched, no thread or child process is left behind, and the queried callable and its argument values are not modified. Modules may newly appear in the module table only as a result of regular imports of the modules that define the types involved.',
 ['histories','fault_sequences','schedules'],'every history of queries by one or several threads, with exceptions injected at any call inside them',
 'The tests look only at the returned value; none compares the interpreter state before and after, least of all after a failed or concurrent query.',
 [S,E,'paradigm/_core/arboreal/execution.py'],[('stub statements executed in private namespaces','paradigm/_core/arboreal/execution.py, '+E)],
 (),['interpreter-wide state before and after']),
p('Q05','Forking while other threads query is safe',
 'A child process forked at any moment, even while other threads of the parent are in the middle of signature queries, can query signatures straight away: it does not hang and gets exactly the answers a fresh process would get. The parent\'s own running and later queries are unaffected by the fork.',
 ['schedules'],'every interleaving of querying threads with a fork in another thread, followed by queries in the child and in the parent',
 'No test forks, and the state inherited by the child depends on where the other threads were at that instant.',
 [E,B],[('process-wide evaluation caches inherited by the child',E)],(),['answers obtained in the child and the parent']),
p('Q06','Queries leave nothing behind in memory',
 'Asking for the signature of a callable does not keep it, its argument values or its results alive: once the program drops a callable of its own making and the signatures it got, they are freed, whether the queries succeeded, failed or were interrupted and whichever threads made them. Repeating the same queries, successful or failing, any number of times does not make the process grow: after the first rounds the numbers of live objects and of items in the library\'s containers stay the same.',
 ['histories','schedules','fault_sequences'],'every sequence of queries (also failing and interrupted ones) about callables that are made and dropped by the program, by one or several threads, and every repetition of a mix of queries',
 'The tests compare results and never look at what remains in the process after a query; growth shows only over long histories.',
 [S,E,B,'paradigm/_core/catalog.py','paradigm/_core/namespacing.py'],[('weak caches of synthesised classes and modules',E+' evaluate_qualified_path'),('candidates and namespaces computed anew by each query',S+' resolve_qualified_paths')],
 [('objects_cache / modules_cache','weakly held',E)],
 ['weak references to the callables and results','numbers of live objects and container items after each round']),
p('V01','Shared signature values behave as immutable values',
 'Signature and parameter objects can be shared freely: any interleaving, re-entrance or failure of bind, expects, all_set, comparison, hashing, repr, str, pickling and attribute reads on the same objects by several threads, also while signatures of other callables are being queried, yields the results each operation would yield alone. No operation changes any observable of its operands, including the arguments passed to bind and the operands of a bind that was rejected or interrupted.',
 ['schedules','histories','fault_sequences'],'every interleaving of operation sequences by 2-3 threads over a pool of shared plain and overloaded signatures, with user-defined annotations and defaults whose comparison, hash or repr raise, call back or are slow',
 'The tests call one operation on fresh values in one thread; they never re-check a value after other operations, failed operations or concurrent ones.',
 [M,A,'paradigm/_core/pretty.py'],[('immutable value classes',M),('annotation comparison and formatting',A)],(),['every public operation of the value classes']),
p('D01','A crash while the stub cache is written never corrupts answers',
 'If a process that is building or saving its on-disk cache dies at any point, or the machine loses power so that only part of the written data survives (missing, empty, truncated or zero-filled pieces), every later process start still succeeds and gives the correct signatures. Once starts run undisturbed again, the cache repairs itself: a start after a completed undisturbed start uses the cache without rebuilding it.',
 ['crash_points','fault_sequences'],'every kill point between any two I/O operations of a start, and every power-loss image the write ordering allows, repeated any number of times',
 'The tests run on one cache built without disturbance; no test kills a start or presents a damaged cache.',
 [C,ST,MO],[('completeness and version check on load, rebuild on any failure',ST+', '+MO),('save',C+' save')],
 [('cache files','two generated modules beside the package sources plus their compiled forms','paradigm/_core/')],['answers after every restart','whether a start launched a rebuild']),
p('D02','Failing to save or read the cache never breaks the program',
 'Any I/O failure while writing the cache (full disk, read-only or unwritable directory, I/O error, quota, short writes, failure on open, write, close, rename or compilation) is reported at most as a warning: the import succeeds and all answers are correct, and no partial data is ever served afterwards. Any I/O failure while reading the cache is handled as if there were no cache.',
 ['fault_sequences'],'every sequence of injected errors on the I/O operations with which a start reads or writes its cache, followed by further starts with or without the faults',
 'The tests run on a writable healthy disk only.',
 [C,ST,MO],[('exceptions during save become a warning',C+' save'),('any exception on load means rebuild',ST+', '+MO)],(),['import outcome, warnings and answers under injected errors']),
p('D03','A warm start equals a cold start',
 'A start that finds a complete cache of the same version gives exactly the same answers as the start that had to build it, for every callable. It uses the cache as it is: no worker process, no rebuild and no modification of the cache files.',
 ['histories','configurations'],'every stub library content, every order of cold and warm starts, any hash seed and directory order in the writing and the reading process, any process start method',
 'The tests run on whichever of the two paths the build left them on and never compare the two.',
 [C,ST,MO,'paradigm/_core/pretty.py','paradigm/_core/arboreal/conversion.py'],[('serialisation round trip of the whole database','paradigm/_core/pretty.py, paradigm/_core/arboreal/conversion.py'),('load',C+' load')],(),['answers of both starts','worker processes and file writes of the warm start']),
p('D04','Concurrent first starts sharing one installation are safe',
 'When several processes, or several threads of one process, import the library for the first time at the same moment on one shared installation, every one of them succeeds in bounded time and gives the correct answers, whatever the interleaving of their reads, writes and worker processes. No reader ever serves a mixture of what different writers wrote, and a later undisturbed start finds a usable cache or rebuilds it.',
 ['schedules','crash_points'],'every interleaving at I/O, lock and process-communication granularity of 2-3 cold starts, some of which may be killed, plus later starts',
 'The tests build the cache before any test process starts, precisely so that no two starts overlap.',
 [C,ST,MO,X],[('cache file replaced by each writer',C+' save'),('worker process results',X+' call_in_process')],(),['import outcome and answers in every process']),
p('D05','A cache of another version is never served',
 'A cache written by another version of the library, whether left over, written concurrently by a still running older process or restored by a downgrade, is never used to answer queries: a start always answers from the stub library as its own version parses it. After the switch the cache is rebuilt, so that a second start of the new version is warm.',
 ['histories','schedules','crash_points'],'every sequence of upgrades, downgrades, starts, overlapping starts of two versions, kills and clock steps (including writes within one timestamp tick and clocks that go backwards)',
 'The tests run on one version and a cache generated by that same version.',
 [C,ST,MO],[('version stored last in the cache and compared on load',ST+', '+MO),('compiled cache validated by timestamp and size',C+' save')],(),['answers after every version switch']),
p('D06','The database does not depend on hash seed or directory order',
 'The signatures the library reports are a function of the installed stub library and interpreter only: the string hash seed of the processes that parse and read them, the order in which the file system lists directories, the default text encoding of the user and the multiprocessing start method make no difference.',
 ['configurations','schedules'],'every hash seed, directory enumeration order, default text encoding and start method, for every stub library content',
 'The test environment pins the hash seed to 0 and always sees one directory order, one default text encoding and one start method.',
 [ST,SRC,MO,I,'paradigm/_core/file_system.py'],[('enumeration of stub files and generic specialisation',ST+', '+SRC)],(),['answers of cold starts under different seeds and orders']),
p('D07','A failing worker process means a prompt error, never a hang',
 'If the helper process that parses stubs or indexes modules fails in any way (killed at any moment, exits on its own, out of memory, cannot be started, raises any exception, produces something that cannot be transferred), the importing process gets an exception in bounded time instead of waiting forever or continuing with partial data. No helper process is left behind (if the importing process itself dies, its helper ends on its own in bounded time), and a later attempt in the same or in another process succeeds once the cause is gone.',
 ['fault_sequences','crash_points','schedules'],'every point at which the worker can die or fail, every failure to create processes or channels, any interleaving of parent and worker',
 'No test makes the worker fail.',
 [X,ST,MO],[('result-or-error hand-over from the worker',X)],(),['outcome and duration in simulated steps of the import','remaining child processes']),
p('D08','Importing never disturbs the main module of the program',
 'Before, during concurrent activity of and after any import of the library, whether it succeeds, fails or is interrupted and whether one or several threads trigger helper processes at the same time, the program\'s main module entry is finally the very object it was before (or absent if it was absent), and every caller receives the outcome of its own helper process.',
 ['schedules','fault_sequences'],'every interleaving of concurrent helper-process calls by several threads and every failure point inside them',
 'The tests never call the helper mechanism concurrently and never make it fail.',
 [X],[('main module replaced while a helper process is started and restored afterwards',X+' call_in_process')],[('__main__ entry','global to the process, swapped temporarily',X)],['the main module entry after every call','the result handed to each caller']),
p('D09','Broken standard library modules are isolated',
 'If importing some standard library module fails with an ordinary exception while the library builds its index, whatever the exception and whichever and however many modules are affected, the build still completes and only callables of those modules may lose their stub information: every callable of the other modules gets its normal answer. Failures are reported at most as warnings.',
 ['fault_sequences','configurations'],'every set of modules whose import fails, every exception type and import order, permanently or only during one start',
 'The tests run with one standard library in which the same modules always import.',
 [I,MO],[('each module imported under its own handler',I)],(),['answers for callables of unaffected modules']),
p('D10','Helper and child processes never publish an incomplete database',
 'A process that is not the main process of a program (a multiprocessing child under any start method, or the library\'s own helper) may answer from whatever is available to it, but never writes an empty or partial database to the cache. After any number of such processes have run, been killed or run concurrently with a main process, main processes give the correct answers, and a child that starts when a complete cache exists gives the same answers as a main process.',
 ['schedules','histories','crash_points'],'every mix and interleaving of child-process imports with main-process starts under fork and spawn, with and without an existing cache',
 'The tests never import the library for the first time in a child process.',
 [ST,MO,X],[('rebuild only in the main process',X+' is_main_process, '+ST+', '+MO)],(),['cache files and answers after child processes ran']),
p('D11','Importing the library leaves the importing program as it found it',
 'Importing the library, from a complete cache, cold, concurrently with other activity of the program or failing half-way, does not change the state of the program that imports it: builtins and already imported modules, the main module, module search path and hooks, warning filters, signal handlers, recursion limit, trace and profile functions, garbage collector settings, working directory, environment, standard streams and the choice of the multiprocessing start method stay as they were, changes that other code of the program makes meanwhile persist, and no thread, child process, open descriptor or temporary file is left behind. The module table only gains the modules that the library itself imports, and none of the modules indexed on its behalf.',
 ['configurations','schedules','fault_sequences'],'every state of the importing program, cold and warm starts, faults at any I/O operation and any helper failure, with other threads of the program running and changing its state',
 'The tests import the library once, with a complete cache, in a process whose state nobody records.',
 [X,I,ST,MO,C],[('modules indexed in a helper process, not in the program',X+' call_in_process, '+MO),('main module replaced only while a helper process is started',X),('exceptions and warnings of foreign module bodies contained',I)],(),['state of the process before and after the import','effects of the same import on a control process']),
p('N01','bind, expects and all_set agree with the Python call protocol',
 'For every signature and every argument list, expects, bind and all_set agree with what calling a function with that parameter list would accept, and binding arguments step by step equals binding them at once.',
 ['inputs'],'every signature, positional and keyword argument list','Property tests sample inputs but compare the operations with each other rather than with real calls.',[M],[('bind/expects/all_set',M)]),
p('N02','Equality, hash, repr and pickle of signatures are coherent',
 'Equal signatures have equal hashes, comparison is an equivalence, and repr and pickle round-trip to an equal value.',
 ['inputs'],'every signature value','Sampled by property tests on generated signatures only.',[M,A],[('value semantics',M)]),
p('N03','Extracted signatures match the callable',
 'Every call accepted by a standard library callable is expected by its extracted signature and vice versa, up to documented stub imprecision.',
 ['inputs'],'every callable of the supported standard library','Tests sample callables and compare parameter lists with inspect only.',[S,ST],[('stub lookup with fallback to inspect',S)]),
p('N04','Invalid signatures cannot be constructed',
 'Constructing a signature with duplicate names, misordered kinds or misplaced defaults is rejected, and every accepted parameter list is a valid Python parameter list.',
 ['inputs'],'every parameter list','Sampled by constructors used in tests.',[M],[('validation in constructors',M)]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
print(len(P))
