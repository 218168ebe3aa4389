import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
UF='pyuff/pyuff.py'
ALL=[UF,'pyuff/tools.py']+['pyuff/datasets/dataset_%s.py'%n for n in '15 18 55 58 82 151 164 1858 2400 2411 2412 2414 2420 2429 2467'.split()]
p('C01','A file reads back as exactly the sequence of data-sets written to it',
 "After any sequence of write_sets calls (add and overwrite, single set or list, any supported types mixed, through any number of UFF instances and program restarts), reading the file yields exactly the sets written since the last overwrite: same count, order and types, each at its index, each equal to what the same set gives when it is written alone to a fresh file and read back. Earlier sets, later sets and the history never influence what a set reads as. Values that look like delimiters (such as -1) do not change this.",
 ['histories','inputs'],"Every history of add/overwrite/refresh/read/reopen steps over every mix of supported types, sizes 0..hundreds of rows, several UFF instances on one path (an instance refreshes before reading what another wrote), files with and without final newline.",
 "Tests write one set per file and read it back; none interleaves types, modes, instances and restarts, and framing errors only show for particular neighbours and histories.",
 ALL,[('refresh: finds and pairs the delimiters','pyuff/pyuff.py:UFF.refresh'),('write_sets / _write_set','pyuff/pyuff.py:UFF._write_set')],['UFF.read_sets','UFF.get_n_sets','UFF.get_set_types'],
 [dict(name='_block_ind',meaning='byte offsets of each set in the file',where='pyuff/pyuff.py')])
p('C02','Every field of a written data-set is read back with the value supplied',
 "For every supported type (15, 18, 55, 58, 58b, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467), a valid set given directly or through its prepare function reads back with every supplied field: integers and strings exactly, floats to the precision of the format's column, arrays complete and in order, double-precision binary data bit for bit, and documented defaults for omitted optional fields. This holds on any disk that completes reads and writes in pieces, whatever the default text encoding and line ends of the platform, and regardless of what else the file holds.",
 ['inputs','histories','fault_sequences'],"All valid field values (labels up to 9 digits, |x|<1e99, strings within their columns, real/complex, even/uneven, single/double, text/binary, all analysis and location variants, any number of rows incl. non-multiples of the row width), for any short-read/short-write behaviour of the storage.",
 "Tests use one or two hand-made sets per type; widths, remainders, sign columns and option combinations are not reached, nor is I/O that completes in pieces.",
 ALL,[('the _writeNN/_extractNN pair of each type','pyuff/datasets'),('_parse_header_line','pyuff/tools.py')],['UFF.write_sets','UFF.read_sets','prepare_*'])
p('C03','Adding never changes what the file already holds',
 "In 'add' mode the bytes already in the file stay exactly as they are and everything new comes after them, whether the call succeeds, is rejected, fails with an I/O error, is interrupted, or the process dies in the middle. 'overwrite' of an existing file and nothing else removes earlier content.",
 ['histories','fault_sequences','crash_points'],"Every existing content (written by pyuff, foreign, damaged, empty), every set type and list added, every fault or crash at any I/O step of the add; checked on the bytes after every I/O step.",
 "Tests never add to a file with content and compare the old bytes, and no test makes an add fail.",
 [UF,'pyuff/datasets/dataset_58.py'],[('append-only open','pyuff/pyuff.py:UFF._write_set'),('binary 58 data','pyuff/datasets/dataset_58.py:_write58')],['bytes of the file'])
p('C04','A rejected or failed write does no damage and can be retried',
 "A write_sets call that raises because a set cannot be written (missing or unusable field, missing type, unsupported variant, unknown mode) leaves the file byte for byte as the sets before it in the same call left it, in both modes. When a write fails on an I/O error (disk full, error, interrupted, out of memory), sets present before an add stay readable, the failed set is there whole or not at all, and once the fault is gone the same call with the same dictionaries, and any later write, succeeds and reads back correctly.",
 ['histories','fault_sequences','inputs'],"Every kind of invalid set at every position of a list, in add and overwrite mode, and every I/O fault at every I/O step of a write, followed by any continuation of reads, retries and writes through the same or another instance.",
 "No test writes an invalid set next to valid ones or makes storage fail.",
 [UF]+ALL[2:],[('a set is composed completely before the file is opened','pyuff/pyuff.py:UFF._write_set')],['bytes of the file','UFF.read_sets after the failure'])
p('C05','A crash during a write never costs or corrupts another data-set',
 "If the process is killed or power is lost at any I/O step of write_sets, then after a restart every set that a finished earlier call had made durable is still read correctly, each set of the interrupted call is present whole or absent (those present being a prefix of the list, in order), and new sets can be added and everything is read correctly. A crashed overwrite leaves the old content or a prefix of the new sets, never a mixture.",
 ['crash_points','histories','fault_sequences'],"Every crash point (between and inside I/O calls, any torn prefix of the data, any durable prefix after power loss), any history before it, any continuation after it, repeated crashes included.",
 "No test stops a write half way; tests always run to completion on a healthy disk.",
 [UF,'pyuff/datasets/dataset_58.py'],[('unfinished data-sets are skipped when pairing delimiters','pyuff/pyuff.py:UFF.refresh')],['a fresh UFF instance after the crash'])
p('C06','A reader concurrent with a writer sees only whole data-sets',
 "While one process adds sets to a file, another that opens or refreshes it at any moment sees the sets present before plus a prefix of the added ones, in order; every set it lists reads correctly while the adding continues, never a torn or mixed set. The number of sets it sees never decreases and all acknowledged sets are seen after the next refresh.",
 ['schedules','histories'],"Every interleaving of the I/O steps of one appender and one or more readers with their own instances, with writes that complete in pieces.",
 "Tests are sequential and single-instance; no interleaving of reads with a growing file exists.",
 [UF],[('refresh takes one consistent look at the file','pyuff/pyuff.py:UFF.refresh'),('offsets stay valid because adding only appends','pyuff/pyuff.py:UFF._read_set')],['UFF.refresh','UFF.read_sets'])
p('C07','What an instance reports always describes the current file',
 "After construction, refresh() or its own write, an instance's number of sets, types, formats (binary 58 is 1, all else 0), status and file_exists describe exactly the present content of the file: also when the file is empty, missing, was deleted, replaced, shortened or extended by others before the refresh, or has no sets any more. Every read method uses that same information; if the file cannot be read they raise, and status tells that no refresh took place.",
 ['histories','fault_sequences'],"Every history of writes by the instance, changes by others (create, delete, replace, truncate, append) followed by refresh, overwrites with fewer or no sets, failed refreshes followed by successful ones.",
 "Tests build an instance once per file; none looks at an instance after the file shrank, vanished or appeared.",
 [UF],[('refresh','pyuff/pyuff.py:UFF.refresh'),('auto refresh in the get_ and read methods','pyuff/pyuff.py')],['UFF.get_n_sets','UFF.get_set_types','UFF.get_set_formats','UFF.get_status','UFF.file_exists'],
 [dict(name='_refreshed,_n_sets,_set_types,_set_formats',meaning='the cached view of the file',where='pyuff/pyuff.py')])
p('C08','A read under I/O faults gives the right data or an error',
 "When opening or reading the file fails, returns in pieces, or memory runs out, at any I/O step, refresh, the get_ methods and read_sets either return the correct result or raise; they never return wrong, truncated or missing data. Once the fault is gone the same instance reads everything correctly again.",
 ['fault_sequences','histories'],"Every fault kind at every I/O step of every reading operation, any file, any sequence of failing and succeeding reads through one instance.",
 "No test injects an I/O error into a read.",
 [UF],[('error handling in refresh, _read_set, read_sets','pyuff/pyuff.py')],['UFF.refresh','UFF.read_sets','UFF.get_n_sets'])
p('C09','Reading changes nothing and no other file is ever touched',
 "Constructing a UFF, refresh, the get_ methods and read_sets never create, change, rename or delete any file. write_sets changes only the file of its instance and fix_58b only its output file; neither leaves temporary, backup or misnamed files behind, whether the call succeeds, fails or is interrupted.",
 ['histories','fault_sequences'],"Every operation sequence in a directory holding other files, with and without faults at any I/O step.",
 "Tests look only at returned values; none checks the file or the directory after a read or a failed operation.",
 [UF,'pyuff/datasets/dataset_58.py'],[('read-only opens','pyuff/pyuff.py:UFF.refresh, UFF._read_set')],['directory contents and bytes before and after each operation'])
p('C10','The file is open only while an operation runs',
 "After every operation of a UFF instance, and after fix_58b, returns or raises, no file is left open: not after success, not after rejected sets, unreadable sets, I/O errors or interruption, in any mode and for any type.",
 ['histories','fault_sequences'],"Every operation, set type and mode, every fault at every I/O step, long histories (handles do not accumulate).",
 "Handle leaks are invisible to tests that only compare data; the class documentation promises it.",
 [UF,'pyuff/datasets/dataset_58.py'],[('close on every path','pyuff/pyuff.py:UFF.refresh, UFF._read_set, UFF._write_set; dataset_58.fix_58b')],['the set of open handles after each operation'])
p('C11','fix_58b repairs a file without losing data or touching the source',
 "fix_58b moves each closing delimiter that stands on its own line to the end of the data before it and changes nothing else, so every set of the file reads the same values as were recorded; the source file is never changed, the output goes to the requested name (by default <name>_fixed<ext>), and fixing a fixed file changes nothing. When reading or writing fails or is interrupted it raises and the source is still intact, and repeating the call afterwards gives the complete result.",
 ['inputs','fault_sequences','crash_points'],"Files of any mix of sets with delimiters on their own line (LF and CRLF, with and without final newline, data ending in any byte), any I/O fault or crash at any step, any retry.",
 "One test fixes one recorded file; payloads ending in newline bytes, files without final newline and failing I/O are not covered.",
 ['pyuff/datasets/dataset_58.py'],[('fix_58b','pyuff/datasets/dataset_58.py:fix_58b')],['bytes of source and output','UFF.read_sets on the output'])
p('C12','Dates and times filled into a header set describe the moment of the write',
 "Every date and time that writing a type 151 set fills in is taken from one single instant of local time between the start and the end of that write, in the form DD-Mon-YY and HH:MM:SS, so date and time always belong together; dates and times the caller gave, directly or through prepare_151, are written unchanged. Re-saving a set that was read keeps its dates and times.",
 ['schedules','inputs'],"Every instant (midnight, month and year end, leap day, daylight-saving change), a clock that advances or jumps between any two looks at it, every subset of given fields.",
 "Tests run at one real instant and never with a moving clock; a mismatch shows only when midnight falls between two looks at the clock.",
 ['pyuff/datasets/dataset_151.py'],[('default dates and times','pyuff/datasets/dataset_151.py:_write151')],['fields read back','the simulated clock'])
p('C13','Reading and re-saving is stable',
 "A set read from a file can be written again as it is, without further preparation, and reads back equal, through any number of generations and in any file; copying all sets of a file through read_sets and write_sets gives a file with the same sets.",
 ['histories','inputs'],"Every supported type and variant, sets read from files written by pyuff and by other software, any number of generations, mixed with other writes, in add and overwrite mode (single precision may turn into double on the first generation).",
 "A few tests do one generation of one set for some types; chains, whole files and most variants are not covered.",
 ALL,[('each _extractNN returns what _writeNN accepts','pyuff/datasets')],['UFF.read_sets of each generation'])
p('C14','All ways of reading agree',
 "Reading a set alone by index, in a list of indices (any order, repeated), with all sets, through the same or another instance, once or again, gives the same result each time; header_only gives the same header fields as the full read and no data. A request outside the file raises.",
 ['histories','inputs'],"Every file, every index or list of indices, header_only on or off, any order of such calls on one instance, any sizes in which the disk returns data.",
 "Tests read each set one way, once.",
 [UF,'pyuff/datasets/dataset_58.py'],[('read_sets / _read_set','pyuff/pyuff.py'),('header_only','pyuff/datasets/dataset_58.py:_extract58')],['UFF.read_sets'])
p('C15','Unsupported data-sets are counted, reported and skipped, never lost or confused',
 "Sets of types pyuff does not support count and report their type number, read as a dictionary with only that type, and stay untouched in the file while supported sets around them read correctly and further sets are added. Writing a set of an unsupported type adds nothing.",
 ['histories','inputs'],"Files mixing supported and unsupported sets (any type number, any body, also damaged ones) in any order, under any history of reads and additions.",
 "Tests read a few recorded files; none adds to or reads around arbitrary unsupported sets.",
 [UF],[('unknown types fall through','pyuff/pyuff.py:UFF._read_set, UFF._write_set')],['UFF.get_set_types','UFF.read_sets','bytes of the file'])
p('C16','Damage to one data-set stays confined to it',
 "If bytes inside the body of one set are damaged on disk, every other set still has its index and type and reads correctly, and sets can still be added; reading the damaged set returns or raises after a bounded amount of work, leaves the instance usable, and reading with a list of the undamaged indices works.",
 ['fault_sequences','inputs','histories'],"Every kind of damage (changed bits, overwritten, zeroed or removed stretches, changed numbers and signs) anywhere in the body of one set that does not itself form a delimiter, in any file, followed by any reads and additions.",
 "No test damages a file; endless loops and knock-on errors need particular damaged counts.",
 ALL,[('sets are delimited independently of their content','pyuff/pyuff.py:UFF.refresh'),('bounded parsing loops','pyuff/datasets/dataset_2414.py, dataset_2429.py, dataset_2467.py, dataset_2412.py')],['UFF.read_sets','steps used'])
p('C17','Threads may read through one shared instance at the same time',
 "When several threads call read_sets and the get_ methods on one refreshed UFF instance whose file does not change, each call returns exactly what it would return alone, for every interleaving.",
 ['schedules'],"Every interleaving of the I/O steps of 2-4 reading threads on one instance, with mixed types, indices and header_only, and reads that complete in pieces.",
 "Tests are single-threaded.",
 [UF],[('each read uses its own handle and no shared mutable state','pyuff/pyuff.py:UFF._read_set')],['UFF.read_sets','UFF.get_n_sets'])
p('C18','prepare_* functions accept exactly the valid argument types and values',
 "Each prepare function returns a dictionary with exactly the given fields (all fields with return_full_dict), rejects wrongly typed or out-of-range arguments with TypeError or ValueError, and never changes its arguments.",
 ['inputs'],"All argument combinations of all prepare functions.","Tests try a few rejected values per function.",
 ALL[2:],[('argument checks','pyuff/datasets/*.py:prepare_*')],['prepare_*'])
p('C19','Sets of other software are found and read with the values they record',
 "A set another program puts into the file, following the published layout of its type in whatever notation (number formats, exponents D, E or e, LF or CRLF, records padded or stripped, padded tags, either byte order, closing tag behind or below binary data, no final line end), is listed and read with exactly the recorded values after the next refresh. This also holds when pyuff adds its own sets before and after it, and while the other program is still adding further sets.",
 ['inputs','histories'],"Every conforming text of each supported type, every history of two programs that extend, replace and read the same files, with restarts and partial transfers.",
 "Tests read some thirty recorded files as they are; none mixes notations, and none lets two programs take turns on a file.",
 ALL,[('_extractNN, _parse_header_line','pyuff/datasets, pyuff/tools.py'),('tags of other software','pyuff/pyuff.py:UFF.refresh')],['UFF.get_set_types','UFF.read_sets'])
p('C20','Meshes converted to trace lines keep every edge of every quad',
 "convert_dataset_2412_to_82, applied to the sets read from a file, gives for each 2412 set with quads, in order, one trace-line set with the four edges of every quad and nothing else, changes none of the sets it is given, and its result can be written and is found by another program that reads the file.",
 ['inputs','histories'],"Meshes of other programs with any mix of element types, sizes, sets and notations; conversion once or repeatedly; to the same or another file, also after a restart.",
 "One test converts one file with a single quad set.",
 ['pyuff/tools.py','pyuff/datasets/dataset_2412.py','pyuff/datasets/dataset_82.py'],[('convert_dataset_2412_to_82','pyuff/tools.py')],['return value','bytes of the file'])
p('C21','What pyuff writes follows the published layouts, for other programs to read',
 "After any history of add, overwrite and re-saving calls, a program that takes the file apart strictly by the columns of the published layouts finds exactly the sets written, each with the values supplied at the precision of their columns; no record exceeds 80 columns, and the stated number of bytes and points of binary data is right.",
 ['inputs','histories'],"Sets of every type, variant and size, prepared or not, in any order and mode, on a disk that transfers in pieces, also behind sets of other software.",
 "Tests read what pyuff wrote with pyuff itself, so a layout error that writer and reader share goes unnoticed.",
 ALL,[('_writeNN','pyuff/datasets'),('_write_set','pyuff/pyuff.py')],['bytes of the file'])
p('C22','Threads working on files of their own do not influence one another',
 "When several threads of one process each use a UFF instance of their own on a file of their own (writing, reading, refreshing, preparing sets, fixing files), every call gives the same result, and every file ends with the same content, as if each thread had run alone, for every interleaving.",
 ['schedules'],"Every interleaving of 2-4 threads at system calls, lines and bytecode instructions, any mix of operations and types, calls that are rejected included.",
 "Tests are single-threaded; module-level state shared between instances shows only under interleaving.",
 ALL,[('no mutable state outside the instance','pyuff/pyuff.py, pyuff/datasets, pyuff/tools.py')],['results of all calls','bytes of all files'])
p('C23','What callers and pyuff hand to each other stays independent',
 "Writing and preparing sets never changes the arrays and values supplied (documented automatic entries of a dictionary may be added or set), so the same dictionary can be written any number of times, several times in a call and to several files, with the same result; results do not change after they are returned. Whatever the caller later does with a dictionary it has written or a result it has got does not influence files, instances or other results.",
 ['histories','inputs'],"Every history of writing, reading and changing dictionaries, some of which share arrays; arrays of any memory form (views, reversed, read-only, byte-swapped, column order).",
 "Tests use fresh contiguous arrays once.",
 ALL,[('no in-place changes of supplied data','pyuff/datasets/*.py:_writeNN'),('no caching of results','pyuff/pyuff.py:UFF.read_sets')],['supplied dictionaries','results','UFF.read_sets'])
p('C24','Programs that add to one file at the same time lose nothing',
 "When several processes or threads, each with a UFF instance of its own, add sets to the same file at the same time (none of them is killed while it writes and the disk takes each write call whole), the file afterwards holds what it held before and every acknowledged set, whole, and the sets of each program in its order. After its own write or refresh an instance lists all sets acknowledged by then, and reads every set it lists correctly while the others go on adding.",
 ['schedules'],"Every interleaving of 2-4 programs at system calls, on a file that exists, is empty, is missing, or ends without a line end; programs killed between their writes.",
 "Tests have one program; what it takes for two (each set composed first and appended by one write at the end of the file) shows only under interleaving.",
 ['pyuff/pyuff.py'],[('_write_set: one append per set','pyuff/pyuff.py:UFF._write_set'),('refresh after the write','pyuff/pyuff.py:UFF.refresh')],['bytes of the file','UFF.get_n_sets','UFF.read_sets'])
p('C25','The settings of the calling program do not matter, and are left alone',
 "Results of calls and the bytes written are the same whatever the calling program has set for numpy (error handling of divisions and invalid values, print options, buffer size), warnings about values turned into errors, decimal arithmetic, random numbers, locale, environment variables other than those of time, and missing standard output. Every call of UFF, of the prepare functions, of fix_58b and of the conversions leaves all these settings, the umask, signal handlers and output streams as they were, also when it fails or is interrupted.",
 ['histories','crash_points'],"Every history of operations, including rejected sets, unreadable files, failing system calls and allocations and interrupts at any line, under any combination of those settings.",
 "Tests run under the settings of the test runner, and look at no setting after a call that fails.",
 ALL,[('text composed with formats of its own','pyuff/datasets/*.py:_writeNN'),('no settings changed in calls','pyuff/pyuff.py:UFF._write_set')],['results of all calls','bytes of all files','settings of numpy, warnings, decimal, random, locale, process'])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,s); assert q['statement'].count('. ')<=3,(q['id'])
print(len(P))
