"""Writes properties.jsonl.  Run: python tools/properties.py"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {
        "files": ["jsonpickle/" + f for f in files],
        "mechanism": [{"name": n, "where": "jsonpickle/" + w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        a["state"] = [
            {"name": n, "meaning": m, "where": "jsonpickle/" + w} for n, m, w in state
        ]
    P.append(
        dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)
    )


ENC, DEC = "jsonpickle.encode", "jsonpickle.decode"
RT = [ENC, DEC]

prop(
    "C01", "Built-in data round trips exactly",
    "Decoding the encoding of any nesting of None, booleans, integers, floats, strings, bytes, bytearrays, lists, tuples, sets, frozensets and dictionaries gives back a value with the same types, contents and order at every level. This holds for binary data stored as base64 and as base85. Dictionary keys are strings that do not collide with the tag names of the wire format.",
    ["inputs", "configurations"], "all values of the listed types, at every nesting, with either binary encoding",
    "The tests encode a few dozen hand-picked values; a value class, a length or a nesting they do not contain can be mangled without any test noticing.",
    ["pickler.py", "unpickler.py", "util.py", "tags.py", "backend.py"],
    [("scalars pass through, tagged wrappers for tuple/set/bytes", "pickler.py:Pickler._flatten_impl, _get_flattener"),
     ("tag dispatch on decode", "unpickler.py:Unpickler._restore_tags"),
     ("binary codecs", "util.py:b64encode, b85encode and their inverses")], RT)

prop(
    "C02", "Shared and cyclic references are preserved",
    "Two places of an encoded object graph that refer to the same list, dictionary or instance refer to one single object after decoding, and places that referred to different objects still do; this includes cycles and self-references. It holds for lists, dictionaries, instances of ordinary, slotted, container-derived and exception classes, classes with state hooks and standard containers, in any combination. A cycle that can only be closed through the constructor arguments of an object or through a custom handler is outside the claim unless the closing reference is an element of a list or deque, a value of a dictionary (of derived classes too) or an attribute of an instance that is no exception and has no state hooks.",
    ["inputs", "configurations"], "all object graphs, with string keys and with keys=True",
    "Identity bookkeeping numbers objects on encode and again on decode; the two numberings must agree for every shape of graph, while the tests cover some tens of shapes.",
    ["pickler.py", "unpickler.py"],
    [("objects are numbered in the order they are met", "pickler.py:Pickler._mkref, _getref"),
     ("the decoder repeats the numbering, with placeholders for unfinished objects", "unpickler.py:Unpickler._mkref, _swapref, _restore_id, _swap_proxies")],
    RT, [("numbering", "object identity to reference number, and back", "pickler.py:Pickler._objs, unpickler.py:Unpickler._objs")])

prop(
    "C03", "Instances come back with the same class and state",
    "Decoding an encoded instance yields an instance of the same class with the same attributes: ordinary classes, nested classes, slots at any level of inheritance (also combined with an attribute dictionary), private (name-mangled) attributes of the class and its bases, dataclasses including frozen and slotted ones, subclasses of list, dict, set, tuple, deque, str, bytes, int and float with their contents and the attributes in their attribute dictionary, named tuples, enumeration members and exceptions. Attributes that were unset stay unset, and a class that needs constructor arguments or counts its constructions is restored without its initializer being called. Enumeration members come back as the identical member.",
    ["inputs", "programs"], "all class shapes of the listed kinds and all assignments of state to their attributes",
    "The behaviour depends on the combination of base class, slots, attributes and values; the tests contain one example per feature.",
    ["pickler.py", "unpickler.py", "util.py"],
    [("instance flattening by kind", "pickler.py:Pickler._flatten_obj_instance, _flatten_newstyle_with_slots, _flatten_sequence_obj, _flatten_dict_obj"),
     ("instances are created without __init__ and then filled", "unpickler.py:Unpickler._restore_object_instance, _restore_from_dict")], RT)

prop(
    "C04", "Pickle protocol hooks are honoured as pickle does",
    "For classes that define a combination of the pickle hooks (reduce with any number of elements including state, list items, dict items and a state setter; reduce_ex; getstate and setstate; getnewargs and getnewargs_ex), the decoded object equals what the standard pickle module restores under protocol 2; state that is a tuple, a list, a dictionary or a scalar is handed over the way pickle does. A falsy state counts as no state, and without a state from a hook the attributes are kept as they are and no setstate is called. The hooks are called on the object being encoded and on the new object only.",
    ["programs", "inputs"], "all combinations of hooks, all reduce tuple shapes, all state shapes",
    "The hooks interact; the tests define one class per hook, while the combinations number in the hundreds.",
    ["pickler.py", "unpickler.py", "util.py"],
    [("hook detection", "util.py:has_reduce, has_method"),
     ("reduce tuples and state", "pickler.py:Pickler._flatten_obj_instance"),
     ("rebuilding", "unpickler.py:Unpickler._restore_reduce, _restore_state, _restore_object_instance")], RT)

prop(
    "C05", "With keys=True dictionaries keep arbitrary keys",
    "With keys=True on both sides, a dictionary with any hashable keys (numbers, booleans, None, bytes, tuples, frozensets, enumeration members, instances, and strings that look like escaped keys or wire tags) decodes to a dictionary with equal keys of the same types mapping to the same values; keys that are instances of a str subclass count as plain strings. Sharing between keys, values and the rest of the graph is kept. String keys are unaffected by the presence of other keys.",
    ["inputs"], "all dictionaries over the key alphabet, alone and combined, in any container",
    "Escaped keys are a second serialization nested in the first one and share its reference numbering; tests use single keys of a few types.",
    ["pickler.py", "unpickler.py", "tags.py"],
    [("keys are encoded to strings with a marker prefix", "pickler.py:Pickler._escape_key, _flatten_dict_obj"),
     ("two passes on decode in the order of the encoder", "unpickler.py:Unpickler._restore_dict, _restore_pickled_key")], RT)

prop(
    "C06", "Standard library values round trip exactly",
    "Dates, times, datetimes with any time zone or fold, time deltas, time zones, decimals, fractions, complex numbers, UUIDs, compiled patterns over str or bytes with flags, typed arrays, deques with their bound, ordered dictionaries, counters, default dictionaries with their factory, chain maps, user containers, paths, IP addresses and networks, namespaces, ranges, slices and struct_time come back with the same type and value. This holds at any nesting and next to any other value. A default dictionary creates missing entries as before.",
    ["inputs"], "all values of the listed types over boundary values of every field, in every context",
    "Each type has its own path (handler, reduce, attributes); tests check a typical value of each, not the boundaries of every field or the combinations.",
    ["handlers.py", "pickler.py", "unpickler.py", "util.py"],
    [("type handlers", "handlers.py:DatetimeHandler, RegexHandler, ArrayHandler, UUIDHandler"),
     ("default factories", "pickler.py:Pickler._flatten_default_factory, unpickler.py:Unpickler._loadfactory"),
     ("reduce path for the rest", "pickler.py:Pickler._flatten_obj_instance")], RT)

prop(
    "C07", "unpicklable=False gives plain JSON of the data",
    "With unpicklable=False the output is JSON that contains the data and no tags other than the wrapper of binary data and references to classes: scalars as they are, lists, tuples and sets as arrays, dictionaries as objects, instances as objects with their attribute values or as their state, dates in ISO format. An object reached again inside itself becomes null (its repr with make_refs=False), so encoding always terminates, and an object shared without a cycle is written out in full every time. Iterators, deques, and objects with constructor argument hooks are outside the claim.",
    ["inputs", "configurations"], "all object graphs of the supported kinds",
    "The mode shares all code with the tagged mode and a cache of finished values; the tests look at a few flat objects.",
    ["pickler.py", "handlers.py"],
    [("no tags when not unpicklable", "pickler.py:Pickler._flatten_obj_instance, _get_flattener, _ref_obj_instance"),
     ("cache of flattened objects", "pickler.py:Pickler._flatten")], [ENC])

prop(
    "C08", "make_refs=False writes shared objects out in full",
    "With make_refs=False the output contains no references, and an object graph without cycles decodes to an equal tree in which every occurrence has the full value. With cycles, encoding terminates: an occurrence of an object inside itself is replaced by its repr text, and every object is written the same way each time it occurs.",
    ["inputs", "configurations"], "all object graphs with and without cycles",
    "It depends on a cache keyed by identity and on cycle detection over all graph shapes; tests use a handful of small graphs.",
    ["pickler.py"],
    [("cache of flattened objects", "pickler.py:Pickler._flatten"), ("cycle detection", "pickler.py:_in_cycle")], RT)

prop(
    "C09", "max_depth and max_iter bound the output exactly",
    "With max_depth=n everything down to nesting level n is encoded as without the option and every container or instance at level n is replaced by its repr text; a limit that is not reached changes nothing. With max_iter=n exactly the first n items of a generator or user-defined iterator are stored and no further item is consumed; without it all are. Tuples, sets and instances count as levels like lists and dictionaries do.",
    ["inputs", "configurations"], "all tree-shaped values and all limits from 0 to beyond their depth",
    "Off-by-one errors at one level for one container kind need the cross product of depth, limit and kind; tests have four examples.",
    ["pickler.py"],
    [("depth counter", "pickler.py:Pickler._push, _pop, _max_reached"), ("bounded iteration", "pickler.py:Pickler._flatten_obj_instance")], [ENC])

prop(
    "C10", "Encoding is pure and deterministic",
    "Encoding any object graph under any options of the call leaves the graph unchanged: same contents, same attribute order, same identities, same sharing. Encoding it again gives the same text, in another process too (where sets have the same order), and encoding the decoded copy gives that text again. The output is one well-formed JSON text made only of objects with string keys, arrays, strings, numbers, booleans and null.",
    ["inputs", "configurations", "histories"], "all object graphs and option sets",
    "Tests compare the decoded value with the original, so a change to the original goes unnoticed, and they hardly ever encode twice.",
    ["pickler.py", "util.py", "handlers.py"],
    [("results are built in fresh containers", "pickler.py:Pickler._flatten_dict_obj, _list_recurse"),
     ("state is reset for every call", "pickler.py:Pickler.reset")], [ENC, "jsonpickle.pickler.Pickler.flatten"])

prop(
    "C11", "Pickler and Unpickler objects can be reused",
    "Any sequence of encode and decode calls on one reused Pickler or Unpickler, or through the module functions with a reused context, gives for every call the result a fresh object gives, also after calls that failed. Restoring the same flattened data twice gives equal, independent objects and leaves the data as it was. Classes passed to one decode call are not used by later calls.",
    ["histories"], "all sequences of operations up to the bound, including failing ones and nested calls",
    "Leftover state shows only for particular sequences of calls; the tests create a fresh object almost everywhere.",
    ["pickler.py", "unpickler.py"],
    [("reset at the start of every top-level call", "pickler.py:Pickler.flatten, reset; unpickler.py:Unpickler.restore, reset")],
    ["jsonpickle.pickler.Pickler", "jsonpickle.unpickler.Unpickler", ENC, DEC],
    [("per-call state", "reference numbering, depth, caches, registered classes", "pickler.py:Pickler.reset, unpickler.py:Unpickler.reset")])

prop(
    "C12", "fail_safe replaces only what failed",
    "With fail_safe set, an exception raised while one object is encoded replaces that object by the callback's result and nothing else: the callback receives that exception, everything else in the graph decodes as it would have, and references to other objects stay correct. Without failures the option changes nothing. KeyboardInterrupt and SystemExit are never swallowed.",
    ["inputs", "fault_sequences"], "all graphs with failing objects at every position, any number of failures",
    "Whether later references survive depends on where the failure happens and on what was numbered before it; fail_safe tests are not even part of the stable suite.",
    ["pickler.py"], [("catch around one object", "pickler.py:Pickler._flatten_obj"), ("numbers are given back", "pickler.py:Pickler._forget_refs")], RT)

prop(
    "C13", "A failing user hook surfaces and leaves no trace",
    "If a hook of a user class or handler raises at any point of an encode or decode call, that same exception reaches the caller (no partial result is returned), and the objects being encoded are unchanged; only TypeError and AttributeError, with which hooks signal an unsupported step, are excepted. Every later encode or decode call, with the same or another Pickler or Unpickler, behaves as if the failed call had never been made. A KeyboardInterrupt raised inside a hook is not swallowed.",
    ["fault_sequences", "crash_points", "inputs"], "every invocation of every hook as the failing point, over all small graphs",
    "Fault injection at each single hook call is not something the tests do; they have two tests with a raising method.",
    ["pickler.py", "unpickler.py", "handlers.py"],
    [("no broad exception handlers around user code other than fail_safe", "pickler.py:Pickler._flatten_obj; unpickler.py:Unpickler._restore_object_instance")],
    RT)

prop(
    "C14", "Safe decoding never evaluates text from the document",
    "With the default options, or safe=True, decoding any document never evaluates the text of a repr tag as Python source, wherever the tag occurs and whatever else is in the document. In safe mode a repr tag of the form module/name can only give that module or attribute of it, any other name or expression becomes None. Evaluation happens only for decoders created with safe=False.",
    ["inputs", "configurations"], "all documents with repr tags in every position, all payload forms, all decoder entry points",
    "One test checks one document; the guarantee is about every document and every path that can reach the evaluation.",
    ["unpickler.py"], [("safe and unsafe restore functions are chosen by one flag", "unpickler.py:Unpickler._restore_tags, _restore_repr_safe")],
    [DEC, "jsonpickle.unpickler.Unpickler.restore"])

prop(
    "C15", "Malformed tag payloads decode to harmless defaults",
    "Decoding well-formed JSON does not fail when a tuple, set or iterator tag has a null, boolean or number as its payload, a base64 or base85 tag anything but valid text, or a reference tag in a list, dictionary or attribute something that is no object's number: it yields an empty tuple, set, iterator or bytes value, or None. A reduce tag whose payload is not a list or does not start with a callable yields an empty list, and a tag naming a class, function, type or module that does not exist does not raise. Neighbouring values in the document still decode to what they would be on their own.",
    ["inputs"], "all tags with all small payloads, alone and nested in containers next to other values",
    "Fuzzing found these one at a time and each got one regression test; the claim is about all tags times all payloads times all positions.",
    ["unpickler.py", "util.py"],
    [("per-tag fallbacks", "unpickler.py:Unpickler._restore_tuple, _restore_set, _restore_iterator, _restore_base64, _restore_base85, _restore_id, _restore_reduce"), ("codecs", "util.py:b64decode, b85decode")], [DEC])

prop(
    "C16", "Missing classes follow on_missing, classes= takes precedence",
    "A document object whose class cannot be found decodes to the plain dictionary of its data, and on_missing decides the reaction: 'ignore' is silent, 'warn' issues a warning, 'error' raises ClassNotFoundError, a function is called with the class name, once for every such object; policy names are case-insensitive. Classes given through classes= as a class, a sequence or a mapping from names (full or short) or classes to classes are used in place of the importable ones and only for that call. Known objects in the same document decode as usual.",
    ["inputs", "configurations"], "all documents mixing known, supplied and unknown classes under all policies and forms of classes=",
    "The result is a function of policy, class lookup and position; tests check single-object documents.",
    ["unpickler.py", "util.py", "errors.py"],
    [("policy", "unpickler.py:Unpickler._process_missing"), ("lookup", "util.py:loadclass, unpickler.py:Unpickler.register_classes")], [DEC])

prop(
    "C17", "The handler registry acts like a map from classes",
    "After any sequence of register and unregister calls (plain, with base=True, as decorator, as instance or class), the handler used for an object is the one last registered for exactly its class and not unregistered since; else the base handler of the first-registered matching base class; else none. Lookup by class, lookup by name, encoding and decoding agree on it. Unregistering a class removes all its registrations and nothing else; registering something that is not a class raises TypeError and changes nothing.",
    ["histories"], "all sequences of registry operations over a class hierarchy up to the bound",
    "The handler tests are not collected in the stable suite, and state machines need all operation sequences, not single calls.",
    ["handlers.py"],
    [("exact and base tables", "handlers.py:Registry.register, unregister, get")],
    ["jsonpickle.handlers.register", "jsonpickle.handlers.unregister", "jsonpickle.handlers.get"] + RT,
    [("tables", "handlers by class and name, and by base class", "handlers.py:Registry")])

prop(
    "C18", "The backend manager acts like an ordered list",
    "After any sequence of load, remove, prefer, option and fallthrough calls on a backend manager, encoding and decoding use the loaded backends in order of preference with exactly the options last set for the one in use, and options or removals of one backend do not affect another. With fallthrough enabled the next backend is tried after any error while encoding and after the error type declared for the backend while decoding, and the last error is raised; with it disabled only the first is tried. Preferring a backend that is not loaded raises AssertionError and changes nothing; with no backend left every call raises AssertionError.",
    ["histories", "fault_sequences"], "all operation sequences over recording backends that can fail, up to the bound",
    "The backend tests are not collected in the stable suite; the order after several operations with failures is a state machine.",
    ["backend.py"],
    [("ordered names and per-backend tables", "backend.py:JSONBackend.load_backend, remove_backend, set_preferred_backend, encode, decode")],
    ["jsonpickle.backend.JSONBackend"],
    [("tables", "backend order, encoders, decoders, options", "backend.py:JSONBackend.__init__")])

prop(
    "C19", "Every JSON backend gives the same decoded result",
    "A value encoded with any of the json, simplejson, ujson and yaml backends decodes with any of the JSON backends (a YAML text with yaml) to the same value. The backend passed to encode or decode is the one that is used, for nested keys as well. indent and separators reach the backend unchanged and do not alter the decoded value.",
    ["configurations", "inputs"], "all pairs of backends and all values within the number range of the backend",
    "The stable suite only runs with the default backend order.",
    ["backend.py", "pickler.py", "unpickler.py", "ext/yaml.py"],
    [("backend selection and options", "backend.py:JSONBackend.encode, backend_encode, decode, backend_decode"), ("nested keys use the same backend", "pickler.py:Pickler._escape_key, unpickler.py:Unpickler._restore_pickled_key")],
    RT + ["jsonpickle.ext.yaml.register"])

prop(
    "C20", "Concurrent encode and decode calls do not interfere",
    "When several threads encode and decode at the same time, each call gives the result it gives alone, for every interleaving, including values handled by shared handler instances. Registering or unregistering a handler for one class in one thread does not disturb calls in other threads that use other classes.",
    ["schedules"], "all interleavings at source line granularity up to the preemption bound",
    "Tests are single threaded; an interference needs a switch at one particular line.",
    ["pickler.py", "unpickler.py", "handlers.py", "util.py", "backend.py", "ext/numpy.py"],
    [("all per-call state lives in objects created per call", "pickler.py:encode, unpickler.py:decode"), ("handlers are bound per context", "handlers.py:BaseHandler.__call__")],
    RT)

prop(
    "C21", "NumPy arrays, scalars and dtypes round trip",
    "With the numpy handlers registered, arrays of numeric, boolean, complex, datetime, timedelta, string, bytes, structured and object dtypes of any shape, byte order, memory order and writability, numpy scalars and dtypes decode to the same dtype, shape and values, whichever size threshold and compression is configured. Views decode to views that share memory with their decoded base as before, and other references in the same document stay correct. An object array larger than the threshold may only hold plain JSON values, and views of non-contiguous bases decode to copies.",
    ["inputs", "configurations"], "all dtypes, shapes, layouts, views and handler options in the bound",
    "Layout, dtype, size and configuration multiply; tests take single examples of each.",
    ["ext/numpy.py", "handlers.py"],
    [("text, binary and view storage", "ext/numpy.py:NumpyNDArrayHandler, NumpyNDArrayHandlerBinary, NumpyNDArrayHandlerView"), ("scalars and dtypes", "ext/numpy.py:NumpyGenericHandler, NumpyDTypeHandler")],
    RT + ["jsonpickle.ext.numpy.register_handlers"])

prop(
    "C22", "pandas objects round trip",
    "With the pandas handlers registered, data frames with numeric, boolean, string, datetime, timedelta, nullable and object columns, distinct plain or multi-level row and column labels and their names, series, indexes, periods, intervals and timestamps decode to equal objects with the same dtypes, labels and names, below and above the size where the data is compressed and in whichever process. Neighbouring values and references in the document are unaffected. Index frequencies and unusual index dtypes are not kept, and the objects in a series of more than sixteen must be plain JSON values.",
    ["inputs", "configurations"], "all column types, label kinds, names and sizes in the bound, in every combination",
    "The metadata of labels, names and types interact; tests use single frames.",
    ["ext/pandas.py", "tags_pd.py", "ext/numpy.py"],
    [("column wise encoding with run-length encoded types", "ext/pandas.py:PandasDfHandler, rle_encode, rle_decode"), ("index, series and scalar handlers", "ext/pandas.py:PandasIndexHandler, PandasSeriesHandler")],
    RT + ["jsonpickle.ext.pandas.register_handlers"])

prop(
    "C23", "_jsonpickle_exclude hides exactly the named attributes",
    "Attributes named in the _jsonpickle_exclude list of an object or of its class, inherited or not, never appear in the output: for ordinary, slotted, dict-, list- and set-derived classes (for dict-derived ones items of that name too), for private names, and for dictionary states from getstate, with every option set. All other attributes round trip unchanged, the excluded ones are absent from the decoded object, and the exclusion does not extend to nested objects of other classes.",
    ["inputs", "configurations"], "all subsets of attributes over all class kinds and option sets",
    "The exclusion has to be applied on every path that writes attributes; tests cover one class.",
    ["pickler.py", "util.py"],
    [("exclusion set is passed to each attribute writer", "pickler.py:Pickler._flatten_obj_instance, _flatten_dict_obj, _flatten_obj_attrs; util.py:items")], RT)

prop(
    "C24", "Custom handlers get the right object, data and context",
    "For an object whose class has a handler, exactly that handler is called once per distinct object on encode with the object itself, and once per stored object on decode with the stored data; no other state of the object is written. Values that the handler passes to its context with reset=False take part in the reference numbering, so sharing inside, across and after handled objects is preserved. A handler_context given to encode or decode reaches every handler whose method has a parameter of that name, and only those.",
    ["inputs", "programs"], "all graphs mixing handled and unhandled objects, all handler signatures",
    "The nesting of handlers in a graph is unbounded; tests have a handler at the top of a small object, and most handler tests are not collected.",
    ["pickler.py", "unpickler.py", "handlers.py"],
    [("handler dispatch", "pickler.py:Pickler._call_handler_flatten; unpickler.py:Unpickler._restore_object, _call_handler_restore"), ("context detection", "handlers.py:handler_accepts_handler_context")], RT)

prop(
    "C25", "Encoded and decoded objects are not kept alive",
    "After encode or decode has returned, or has failed and the exception is gone, jsonpickle holds no reference to any object that was encoded, decoded, or used as a key, handler data or context value. This holds for the module functions under all options, and for a reused Pickler after it finished encoding an object.",
    ["inputs", "histories"], "all graphs, options and failing calls",
    "A leak changes no result, so tests that compare results cannot see it.",
    ["pickler.py", "unpickler.py", "handlers.py"],
    [("state is dropped at the end of a call", "pickler.py:Pickler._pop, reset; unpickler.py:decode")], RT)

prop(
    "C26", "Without keys=True non-string keys become fixed strings",
    "Without keys=True every non-string dictionary key is written as one string determined by the key alone: None as null, anything else as its repr, for dictionaries and dict-derived objects alike (classes that reduce to a list of pairs, such as OrderedDict, keep their keys), and the values under them round trip, the last one where keys collide. String keys are kept, except that entries whose key is written as a reserved tag name and entries whose value is a lambda or method are left out. With numeric_keys=True integers and floats are handed to the backend unchanged.",
    ["inputs", "configurations"], "all key types and dictionary kinds",
    "Tests check two or three key types in plain dictionaries.",
    ["pickler.py", "util.py", "tags.py"],
    [("key conversion", "pickler.py:Pickler._flatten_key_value_pair; util.py:_is_picklable")], RT)

prop(
    "C27", "Presentation options do not change the decoded value",
    "indent, separators, use_base85, warn, include_properties, use_decimal (for Decimals with a backend set up for them), numeric_keys with string keys only, an unreached max_depth, handle_readonly on both sides for objects without read-only attributes, and sorted output of the backend change the text at most; the decoded value, its types and its sharing are the same as without them. This holds for every combination of these options. include_properties only adds the values of the class's properties, and warn only adds warnings.",
    ["configurations", "inputs"], "all combinations of the options over all graphs",
    "Options are tested one at a time on one value; an option that breaks another needs the product.",
    ["pickler.py", "backend.py"],
    [("options are orthogonal branches of the encoder", "pickler.py:encode, Pickler.__init__"), ("properties", "pickler.py:Pickler._flatten_properties")], RT)

prop(
    "C28", "Classes, functions and modules are stored by reference",
    "Every importable class, module-level function, builtin, bound method of a restorable object and module decodes to the identical object (the method to an equal one), alone and inside containers and attributes, without being copied or called. A lambda or another thing that cannot be stored becomes null in a list and is left out of dictionaries and attributes, and never affects its neighbours. Old module names of documents written on Python 2 are translated.",
    ["inputs"], "all classes, functions and modules of the standard library that are importable by their name",
    "The lookup works on names with nesting, aliases and special cases; tests have about ten names, the standard library has thousands.",
    ["util.py", "pickler.py", "unpickler.py"],
    [("names", "util.py:importable_name, loadclass, translate_module_name"), ("tags", "pickler.py:_mktyperef, Pickler._flatten_function; unpickler.py:Unpickler._restore_type, _restore_function, _restore_module")], RT)

prop(
    "C29", "Documents of older versions decode as before",
    "Documents in the wire formats of earlier releases decode to the objects they stood for: with v1_decode dictionaries do not take part in the numbering of references; object, state, newargs, initargs, seq, iterator, reduce, repr and type tags, base64 and base85 binary data, untagged and old-style module names all keep their meaning. The text that the current version writes for a value keeps decoding to it whatever the order of the tags inside one tagged object.",
    ["inputs"], "all documents built from the tag grammar up to the bound",
    "The tests encode and decode with the same version, so a change on both sides at once goes unnoticed.",
    ["unpickler.py", "util.py", "tags.py"],
    [("tag dispatch", "unpickler.py:Unpickler._restore_tags"), ("numbering of version 1", "unpickler.py:Unpickler._restore_dict")], [DEC])

prop(
    "C30", "Encoded text stays in the documented wire format",
    "The text written for a value is a fixed function of the value and the options: each kind of value uses its documented tag (tuple, set, base64, base85, type, function, module, object with importable class name and attributes in order, seq, state, newargs, reduce, iterator, id), and reference numbers count lists, dictionaries and instances from 0 in the order they first appear. Text written today can therefore be read by other versions and by other programs.",
    ["inputs", "configurations"], "all object graphs of the supported kinds",
    "Round trip tests pass when encoder and decoder change together; stored documents then become unreadable.",
    ["pickler.py", "tags.py", "util.py"],
    [("wire tags", "tags.py"), ("flattening", "pickler.py:Pickler._flatten_obj_instance"), ("numbering", "pickler.py:Pickler._mkref")], [ENC])

prop(
    "C31", "An interrupt at any point surfaces and leaves no trace",
    "If a KeyboardInterrupt arrives at any point while an encode or decode call is running inside the library, that interrupt reaches the caller: it is never swallowed, replaced by another exception or turned into a result, with fail_safe set neither. The objects being encoded, the data being decoded and the registered handlers are unchanged afterwards. Every later call, with the same or another Pickler or Unpickler, gives the result it would have given without the interrupted call.",
    ["crash_points", "inputs", "configurations"], "every line of the library that a call executes as the point of the interrupt",
    "A test can raise from a hook, but not between two arbitrary steps of the library, and there are hundreds of such points in one call.",
    ["pickler.py", "unpickler.py", "handlers.py", "backend.py"],
    [("state is reset when a call starts", "pickler.py:Pickler.flatten, reset; unpickler.py:Unpickler.restore, reset"),
     ("interrupts pass the error handling", "pickler.py:Pickler._flatten_obj; backend.py:JSONBackend.encode, decode")], RT)

prop(
    "C32", "Running out of stack raises RecursionError, never a wrong result",
    "When the interpreter's recursion limit is reached at any point of an encode or decode call, the call raises RecursionError; it never returns an incomplete or different result and never raises something else instead. The objects being encoded and the data being decoded are unchanged, and later calls with the same or another Pickler or Unpickler give the results they would have given. With enough stack the result does not depend on the limit.",
    ["fault_sequences", "inputs", "configurations"], "every stack size from the smallest one to the sufficient one",
    "Tests run with one recursion limit; the error has to be raised inside each of the library's many exception handlers once.",
    ["pickler.py", "unpickler.py", "util.py", "handlers.py"],
    [("narrow exception handlers", "pickler.py:Pickler._reduce, _flatten_obj_instance; unpickler.py:Unpickler._restore_reduce, _restore_object_instance; util.py:loadclass")], RT)

prop(
    "C33", "Extension handlers come and go without a trace",
    "After any sequence of register and unregister calls of the numpy, pandas and gmpy2 extensions, the classes of an extension have its handlers exactly while it is registered, with the settings of the last registration; the pandas extension takes the numpy one along both ways. Handlers that users registered for other classes stay as they are, and with everything unregistered the registry is as it was at first. Registering the YAML extension with a backend manager adds YAML as the last choice there, keeps the order of dictionaries, and affects no other manager.",
    ["histories", "configurations"], "all sequences of register and unregister calls up to the bound",
    "The effect of a registration depends on everything that was registered and removed before; tests register once per process.",
    ["ext/numpy.py", "ext/pandas.py", "ext/gmpy.py", "ext/yaml.py", "handlers.py"],
    [("registration", "ext/numpy.py:register_handlers, unregister_handlers; ext/pandas.py:register_handlers, unregister_handlers; ext/gmpy.py:register_handlers"),
     ("registry", "handlers.py:Registry"), ("yaml", "ext/yaml.py:register")], RT)

prop(
    "C34", "Locks, queues, streams and gmpy2 integers keep what can be kept",
    "A lock decodes to a new lock that is held exactly if the original was, a queue.Queue to a new empty working queue, an in-memory text or byte stream to one with the same contents and position, a gmpy2 integer of any size (with the extension registered) to an equal one, and an open text file becomes null. The originals are neither acquired, released, drained, read nor closed by encoding or decoding. This holds at any place of a graph: one object stays one object, different ones stay different, and neighbours are unaffected.",
    ["inputs", "configurations"], "all such values at all places, all combinations and sharing patterns up to the bound",
    "Tests encode one of them alone and look at its type; whether references next to it stay correct depends on the combination.",
    ["handlers.py", "ext/gmpy.py", "pickler.py", "unpickler.py"],
    [("substitutes", "handlers.py:LockHandler, QueueHandler, TextIOHandler; ext/gmpy.py:GmpyMPZHandler"), ("numbering without a stored object", "pickler.py:Pickler._ref_obj_instance")], RT)

prop(
    "C35", "Functions, aliases and objects agree on every option",
    "For every combination of options, encode gives the text that a Pickler with these options and the backend give, and decode the value that an Unpickler with these options gives, with the same warnings and errors; dumps and loads are the same functions. An option has the same effect by name and at its documented position, and passing its documented default is the same as leaving it out. With a context given, the options of the context count and not those of the call, except for backend, indent, separators, classes and handler_context.",
    ["configurations", "inputs"], "all combinations of options within each family and all pairs across families",
    "There are more than two dozen options that are handed on by hand in several places; tests set one at a time through one of the ways.",
    ["pickler.py", "unpickler.py", "__init__.py"],
    [("options are handed on", "pickler.py:encode, Pickler.__init__; unpickler.py:decode, Unpickler.__init__"), ("aliases", "__init__.py")], RT)

prop(
    "C36", "handle_readonly leaves out just the read-only attributes of the object",
    "With handle_readonly=True the text of an object is that of an equal object without its read-only attributes: those that cannot be set, because they are properties without a setter or because the class refuses to. Attributes that can be set, and entries of the same names in dictionaries and other objects inside it, are written as usual, the object is not changed, and an object that sets its state itself gets its full state. Objects derived from str or int with properties round trip when decoded with handle_readonly=True, wherever they are.",
    ["inputs", "configurations"], "all assignments of free, guarded, computed and managed to the attributes in all forms of classes, all values and options up to the bound",
    "The tests encode one string class; whether names further inside the object are mistaken for its attributes depends on the class, the place and the name together.",
    ["pickler.py", "unpickler.py", "util.py"],
    [("attributes are left out", "pickler.py:Pickler._flatten_key_value_pair"), ("read-only attributes are recognised by setting them", "util.py:_is_readonly"), ("attributes that cannot be set are skipped", "unpickler.py:Unpickler._restore_from_dict")], RT)

prop(
    "C37", "Operators that classes define play no part in encoding",
    "How a class defines comparison, hashing, truth, length, text forms, arithmetic, conversion, copying, calling, indexing, containment or the listing of its attributes changes neither the text of its instances nor what they decode to, whether such a method gives misleading results or raises. This holds for ordinary, slotted and container-derived classes, for classes with state hooks and for operators of their metaclass, with the sharing of the objects preserved. Outside the claim are a text form that raises on callable objects, iteration and item assignment of containers, comparison and truth of classes, and methods that the restoring itself calls.",
    ["inputs", "programs"], "all such methods alone, in pairs and together, misleading and raising, on all kinds and forms of classes at all places",
    "Tests use well-behaved classes; a comparison with == in place of identity or a truth test in place of a test for None is only visible with a class that redefines just that operator.",
    ["pickler.py", "unpickler.py", "util.py"],
    [("objects are told apart by identity", "pickler.py:Pickler._mkref; unpickler.py:Unpickler._mkref"), ("kinds of objects are told apart by their type", "util.py:_is_object, _is_sequence_subclass, _is_dictionary_subclass, has_reduce")], RT)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
