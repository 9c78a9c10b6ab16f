"""writes properties.jsonl and MANIFEST.json (one place for the texts)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LB, LN, LK, FI, HK, HP = ("hickle/loaders/load_builtins.py", "hickle/loaders/load_numpy.py", "hickle/lookup.py",
                          "hickle/fileio.py", "hickle/hickle.py", "hickle/helpers.py")
P = []


def p(id, title, statement, over, text, why, files, mech, observe=("hickle.dump / hickle.load",)):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                  "observe_at": list(observe), "hook_needed": None}})


p("C01", "Python scalars come back with the same class and exactly the same value",
  "Any int of any size, float (infinities, NaN and the sign of zero included), complex, bool or None that is dumped and loaded again is returned with the same class and the same value. "
  "This holds wherever the scalar sits: at the top level, as a value inside a dict, or as an item of a list or tuple that is not made of numbers only.",
  ["inputs"], "all ints (checked for |n| < 2**200), all binary64 floats and complex numbers, bool, None; five positions in a container",
  "The tests dump a few small numbers and one large int; the switch between native and textual storage happens at +-2**63 and any special float may be mangled.",
  [LB, HK], [("create_scalar_dataset / load_scalar_dataset", LB), ("create_none_dataset / load_none_dataset", LB)])

p("C02", "str and bytes come back with every character and byte and with their class",
  "Any str and any bytes value, the empty ones and ones containing NUL, '/', quotes, non-ASCII characters or lone surrogates included, is loaded as an equal object of the same class. "
  "Instances of user defined subclasses of str and bytes come back as instances of their subclass with the same content.",
  ["inputs"], "all strings and all bytes values up to the length bound; position in containers",
  "Tests use some fixed texts; a single special character anywhere in the text is enough to lose data.",
  [LB], [("create_listlike_dataset (text branch)", LB), ("load_list_dataset", LB)])

p("C03", "Lists, tuples and sets keep class, length, order and the value of every item",
  "A list, tuple or set loaded from a file has the class, the length and (list, tuple) the order of the dumped one, and every item equals the dumped item. "
  "Numbers in a container made of numbers only may come back as numpy scalars but always with exactly the same numerical value, and where all of them are of one kind (bool, int, float or complex) of that kind; all other items keep their class. "
  "This holds for every mixture of item kinds, every nesting and the empty containers.",
  ["inputs"], "all item sequences up to the length bound over bool, int, float, complex, numpy scalars, text, None and nested containers, with all their values",
  "Storing as one array needs a common dtype without loss for every combination of values; tests use homogeneous short examples.",
  [LB], [("check_iterable_item_type", LB), ("create_listlike_dataset / create_setlike_dataset", LB), ("ListLikeContainer / SetLikeContainer", LB)])

p("C04", "dicts keep every key with its class, every value and the insertion order",
  "A dict loaded from a file has the same keys, each of the same class and value, mapped to the same values and in the same order as the dumped dict. "
  "This holds for str, bytes, int, float, complex, bool, None, tuple and numpy scalar keys and mixtures of them, whatever characters text keys contain (quotes, slashes, backslashes, dots, NUL, digits, empty), and for dict subclasses that can be built from a mapping. ",
  ["inputs"], "all dicts up to the size bound over these key kinds with all key values; dict subclasses",
  "Keys become names of HDF5 objects: any key whose rendering is ambiguous, cut or collides with another one breaks it, tests cover a handful of keys.",
  [LB], [("create_dictlike_dataset", LB), ("DictLikeContainer", LB)])

p("C05", "Objects referenced several times are stored once and come back as one object",
  "If the same list, tuple, dict, set, text, array or custom object is reachable several times in an acyclic object structure then the loaded structure contains one object at all those places, and places that held distinct objects never come back as one mutable object. "
  "The number of stored copies of a shared object is one, and equality of the structure does not depend on what is shared.",
  ["inputs", "histories"], "all sharing patterns over the bounded structures; all reuses of the address of temporary objects",
  "Sharing is tracked by object address during dump: dropping an object early lets a later one be taken for it, which depends on memory reuse no test controls.",
  [HK, LK], [("memo in _dump / _load", HK), ("ReferenceManager", LK), ("ExpandReferenceContainer", LK)])

p("C06", "numpy arrays and scalars keep dtype, shape and every element",
  "A numpy array, numpy scalar, matrix or dtype comes back with the same dtype (byte order included), shape and element values, for numeric, bool, complex, bytes, str, object, datetime64, timedelta64 and structured dtypes, zero dimensional and empty arrays included, and whatever the memory layout.",
  ["inputs"], "all element values for the listed dtypes and shapes within the bounds; str arrays with all characters; object arrays of all listed item kinds",
  "Tests load a few random arrays; each dtype takes another route (list of strings, utf8 text, raw dataset, group of items).",
  [LN], [("create_np_array_dataset / load_ndarray_dataset", LN), ("create_np_scalar_dataset / load_np_scalar_dataset", LN), ("NDArrayLikeContainer", LN)])

p("C07", "Masked arrays and scipy sparse matrices keep structure and content",
  "A numpy masked array comes back with the same shape, dtype, mask and the same values where it is not masked; numpy.ma.masked comes back as numpy.ma.masked. "
  "A scipy CSR, CSC or BSR matrix comes back in the same format with the same shape, dtype, index arrays and data.",
  ["inputs"], "all values and masks, all valid index structures within the bounds",
  "The tests contain one masked array and a few matrices.",
  [LN, "hickle/loaders/load_scipy.py"], [("create_np_masked_array_dataset / NDMaskedArrayContainer", LN), ("SparseMatrixContainer", "hickle/loaders/load_scipy.py")])

p("C08", "astropy objects keep value, unit, format, scale and frame",
  "astropy Quantity, Angle, Time, Unit, Constant, Table and SkyCoord objects come back with the same values, dtype, unit, wrap angle, time format, scale, location and mask, constant attributes, table columns with their unit, mask and dtype, column order and meta data, coordinates and frame, for every numerical value and wherever they sit in a container.",
  ["inputs"], "all binary64 values of scalar and small array quantities, angles, coordinates and times given as numbers; listed units, formats, scales and frames",
  "The tests dump one example of each class at the top level.",
  ["hickle/loaders/load_astropy.py"], [("create_/load_ astropy_*", "hickle/loaders/load_astropy.py")])

p("C09", "Compression and other dataset options never change what is loaded",
  "Whatever lossless combination of the h5py options compression, compression_opts, shuffle, fletcher32 and chunks=True is passed to dump, the loaded object is the same as without options, and no object that can be dumped without them is refused with them. "
  "Arrays, long texts and homogeneous numeric lists are really stored with the requested filter, also inside nested containers.",
  ["inputs", "configurations"], "all option combinations times the object kinds of C01 to C07",
  "Scalars, empty and null datasets refuse filters, so each storage route has to drop or forward the options correctly; tests try one option on a few objects.",
  [HP, LB, LN], [("no_compression", HP), ("kwargs forwarding", LB)])

p("C10", "File arguments are honoured: mode, ownership of the handle and path",
  "dump and load work alike with a file name, a path object, an open HDF5 file or group, a file object, a (file, name) tuple and a dict; handles hickle opened are closed on return, handles of the caller stay open and usable. "
  "The mode decides as for open(): 'w' replaces the file, 'a' and 'r+' keep other content, 'x' and 'w-' refuse an existing file, 'r' and read-only or closed handles are refused for dump. "
  "The path is resolved relative to the passed group, with or without leading and trailing slash.",
  ["inputs", "configurations", "histories"], "all combinations of file argument kind, mode, path and prior file state; dump then load histories",
  "The tests try each kind with one mode.",
  [FI, HK], [("file_opener", FI), ("dump / load finally blocks", HK)])

p("C11", "A failing dump or load reports the error and leaves no residue in the process",
  "If any HDF5 operation or the serialisation of any object fails at any point of a dump or load, the caller gets that error (load: ValueError chained to it), files opened by hickle are closed, handles of the caller stay open, and the state of the garbage collector is unchanged. "
  "A later dump or load to the same open file or to another one works as if the failed call had not happened, apart from the path it wrote to.",
  ["fault_sequences", "inputs"], "every operation kind, every position of the fault, ordinary and interrupting exceptions",
  "Tests hardly inject faults; managers and handles left behind show only in later calls.",
  [HK, LK], [("try/finally in dump and load", HK), ("manager __exit__ / _drop_manager", LK)])

p("C12", "Objects stored under different paths of one file do not affect each other",
  "After any sequence of dumps to different paths of a file, each path loads exactly what was dumped there. "
  "Dumping to a path that already holds something raises an error and leaves everything stored in the file loadable and unchanged.",
  ["histories", "inputs"], "all histories of dumps up to the length bound over nested and sibling paths, all values",
  "Every path has its own type table and references; tests use two dumps.",
  [HK, LK], [("root group handling in dump", HK), ("ReferenceManager.__init__", LK)])

p("C13", "load never changes the file and refuses what is not a hickle file",
  "Loading, successful or not, leaves the content of the file untouched, also when the passed handle is writable. "
  "A file, group or path that does not carry the hickle attributes, carries no version number (or, in the 3.x layout, another version than 3) or is not HDF5 raises an exception and never returns an object.",
  ["inputs", "configurations", "histories"], "all presences and values of the version attributes, paths, handle kinds and modes",
  "Tests use one wrong file.",
  [HK, LK], [("version detection in load", HK), ("overlay type table", LK)])

p("C14", "Every picklable object can be dumped; classes are handled by their nearest base",
  "An object whose class is not supported natively is stored by pickle, with a SerializedWarning, and comes back equal; unpicklable objects raise. "
  "Instances of subclasses of the builtin scalar and container classes are handled by the support of the nearest class in the method resolution order and come back as instances of the subclass with the same value or items (arrays of numpy.ndarray subclasses come back with the same values). "
  "Loading never needs the warning or the option that was active while dumping.",
  ["inputs", "programs"], "class hierarchies up to the depth bound over all supported base classes, all content values",
  "Tests define two or three classes.",
  [LK, HK], [("LoaderManager.load_loader", LK), ("create_pickled_dataset / load_pickled_data", LK)])

p("C15", "Custom loaders take effect exactly when enabled and cannot displace the core",
  "A class registered with a custom option is handled by its loader if and only if the option is enabled for the dump, and a file written that way loads without passing the option again. "
  "Loaders reserved for hickle itself can neither be replaced nor excluded by registrations, and registering or excluding a class never changes how files of other classes load.",
  ["configurations", "histories"], "all sequences of registrations, exclusions and option settings up to the bound",
  "Tests exercise single registrations.",
  [LK], [("LoaderManager.register_class / register_class_exclude", LK), ("option handling in LoaderManager.__init__", LK)],
  ("hickle.lookup.LoaderManager.register_class", "hickle.dump / hickle.load"))

p("C16", "The type table of a file stays consistent over all histories of use",
  "Each object of a file refers to exactly the class and storage kind it was dumped with, whatever classes were dumped before, in the same call or into the same open file, and each class has one entry. "
  "Files with a missing, stale or malformed table entry raise an error instead of returning an object of another class.",
  ["histories", "inputs"], "all interleavings of objects of several classes up to the bound; all single corruptions of table links",
  "Entries are shared by identity of the class object; tests build the table once.",
  [LK], [("ReferenceManager.store_type / resolve_type", LK)])

p("C17", "Data whose class or loader is missing is recovered instead of lost",
  "If the class or the loader of a stored object is not available on load, the object comes back as a recovered dict or array that holds the stored items, values and attributes, with a DataRecoveredWarning, and all other objects of the file load normally.",
  ["inputs", "configurations"], "all positions of the unavailable class within the bounded structures, all values",
  "Tests remove one class.",
  [LK], [("RecoverGroupContainer / recover_custom_dataset", LK), ("resolve_type", LK)])

p("C18", "Files in the layout of hickle 4.x load with the same values as when written",
  "Lists, tuples, sets, dicts, texts, scalars, arrays, masked arrays and pickled objects stored in the 4.x layout (types as pickle strings in the attributes, dict items as groups, strings as HDF5 strings) load with the same values, classes and order.",
  ["inputs"], "all values in the 4.x layout of the listed kinds within the bounds",
  "The repository contains a few binary example files only.",
  [LK, LB, LN], [("hickle-4.x loaders", LK), ("load_hickle_4_x_string", LB), ("fix_lambda_obj_type", LK)])

p("C19", "Files in the layout of hickle 3.x load with the same values as when written",
  "Lists, tuples, dicts, texts, numbers, None and arrays stored in the 3.x layout load with the same values, key classes and order of items, for any number of items.",
  ["inputs"], "all values and item counts (beyond ten items, where names no longer sort) within the bounds",
  "Only three example files exist.",
  ["hickle/legacy_v3/hickle.py", "hickle/legacy_v3/helpers.py"], [("sort_keys", "hickle/legacy_v3/helpers.py"), ("_load / PyContainer.convert", "hickle/legacy_v3/hickle.py")])

p("C20", "Containers are reassembled by index, not by the order items are found in",
  "The order in which the items of a stored list, tuple, set, dict or object array are found in the file never influences the loaded object, for any number of items. "
  "An item without usable position or two items claiming one position raise an error instead of giving a wrong container.",
  ["inputs", "schedules"], "all permutations of arrival and all index assignments up to the bound; item counts on both sides of powers of ten",
  "HDF5 lists members by name; the tests have few items and one order.",
  [LB, LN], [("ListLikeContainer.append / DictLikeContainer.append", LB), ("NDArrayLikeContainer.append", LN)])

p("C21", "Node filter proxies never write through to the file",
  "Attribute changes made on the proxy that loaders use to present modified attributes of a stored node are visible through the proxy only; everything else read through the proxy is what the node holds, and the file is unchanged.",
  ["inputs", "histories"], "all sequences of set, delete and read of attributes up to the bound",
  "The unit test sets one attribute.",
  [HP], [("H5NodeFilterProxy", HP)], ("hickle.helpers.H5NodeFilterProxy",))

p("C23", "Concurrent dumps and loads in threads do not interfere",
  "Threads dumping to and loading from different files concurrently each behave as if alone: every object comes back as its own thread stored it, no thread gets an error it would not get alone, and process wide state (registered loaders, open managers, garbage collector) is as after the same calls in sequence.",
  ["schedules", "inputs"], "all positions of the context switches between two threads up to the bound, at the granularity of statements of hickle",
  "The tests are single threaded, and the scheduler picks few of the interleavings.",
  [LK, HK, LB], [("ReferenceManager / LoaderManager class level dictionaries", LK), ("LoaderManager.load_loader (first use)", LK), ("no_compression, dump and load: process wide state", HK)])

p("C24", "dump leaves its arguments as they are and loaded objects belong to the caller alone",
  "Dumping never changes the dumped object, the objects it holds or the description of the file passed, and dumping it again stores the same. What is stored is the object as it was at the time of the dump. Every load returns objects of its own: changing them affects neither the file, nor the dumped object, nor what another load returned, and they stay valid when the file is closed or written again.",
  ["inputs", "histories"], "all values of the symbolic content, all listed kinds of objects and argument forms, sequences of dump, change, load",
  "Tests compare the loaded object with the dumped one after the dump, so a change of both goes unnoticed, and hardly ever load twice.",
  [HK, LB, LN, "hickle/fileio.py", "hickle/loaders/load_scipy.py"], [("create_* functions", LB), ("load_* functions and PyContainer.convert", LN), ("file_opener", "hickle/fileio.py")])

NA = [
 ("C22", "A crash while dumping never damages other data in the file",
  "If the process or machine dies at any point of a dump, objects stored in the file before remain loadable.",
  ["crash_points"], "every write of the HDF5 library",
  "Needs crashes inside the HDF5 C library.",
  "The order in which bytes reach the disk is decided by the HDF5 C library (no journal, caches flushed on close), not by code in this repository; there is nothing in hickle to encode."),
]
for id, title, st, over, text, why, _ in NA:
    p(id, title, st, over, text, why, [HK], [("none in this repository", HK)])

CHECKED = [q["id"] for q in P if q["id"] not in {n[0] for n in NA}]
import glob
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(HERE, "scenarios", "c??_*.py"))}

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            q["statement"] = q["statement"].strip()
            f.write(json.dumps(q) + "\n")
    note = ("Bounded: the solver decides every check for all values of the symbolic inputs on every path of the real source within the stated sizes; "
            "h5py/HDF5, numpy and pickle are modelled (sx/fakeh5.py, sx/models.py) and one witness per path is run on the real libraries; "
            "an alarm is raised only for a counterexample that the real code reproduces.")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/selftest.py",
         "checks": [{"property": c, "quick_cmd": "/opt/venv/bin/python check.py %s" % c,
                     "thorough_cmd": "/opt/venv/bin/python check.py --thorough %s" % c,
                     "technique": "symbolic execution of the real source with z3 deciding every path and check, counterexamples replayed on the real code",
                     "level": "model_checking", "level_note": note} for c in CHECKED if c in have],
         "not_applicable": [{"property": n[0], "reason": n[6]} for n in NA] +
                           [{"property": c, "reason": "check not built yet"} for c in CHECKED if c not in have]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
