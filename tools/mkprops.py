#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe,hook_needed=None)))

prop("C01","Binary serialisation round trip",
 "Packing any object whose type is built from serialisable parts (fundamental types, strings, enums, arrays, pairs, standard containers, smart pointers, tuples, nested/derived/template classes with generated descriptors) and unpacking it into another object of that type - freshly constructed or already holding other contents - yields an object equal to the original. Several objects packed one after the other unpack in the same order, consuming exactly the bytes that packing produced and leaving neighbouring objects intact; unpacking onto a const object changes nothing but skips exactly that object's bytes.",
 ["inputs","programs"],"every type expressible with the supported building blocks, every value of it, every prior state of the target, every sequence of objects in one buffer",
 "Tests pack one or two fixed structs into fresh targets; the guarantee quantifies over every type the generator may meet, every value and every prior target state.",
 ["pack_base.h","pack_stl.h","pack_epilogue.h","object.h","polyAccessPack.h","classdesc.cc"],
 [("per-type pack/unpack overloads and generated access_pack/access_unpack functors","pack_base.h, pack_stl.h, pack_epilogue.h"),
  ("recursive descriptor generation","classdesc.cc")],
 ["operator<< / operator>> on pack_t","::pack/::unpack"])

prop("C02","pack buffer is an exact byte queue",
 "Whatever sequence of raw writes, raw reads, object packs/unpacks, rewinds, relative seeks, resets, moves, swaps and clears is applied, a pack buffer delivers exactly the bytes that were written, in order, its reported size and read position are those of a plain byte queue, and its comparison operators are a strict total order consistent with equality of the contents (lexicographic between buffers of equal size). Reading beyond what was written raises the documented exception instead of delivering data.",
 ["histories","inputs"],"every finite history of buffer operations over one or several buffers",
 "Tests write then read a few objects; seek/copy/move/compare interleavings and reads past the end are hardly exercised.",
 ["pack_base.h","pack_stream.h","Realloc.h"],
 [("append/popoff/packraw/unpackraw/realloc","pack_base.h"),("reseti/reseto/seeki/seeko","pack_base.h"),("swap/move/copy/cmp","pack_base.h")],
 ["public pack_t API"])

prop("C03","File-backed packing equals in-memory packing",
 "Packing a sequence of objects to a file-backed buffer stores exactly the bytes that the in-memory buffer would hold, and reopening the file for reading delivers the same objects; reading past the end of the file, opening a missing file, or a write which the medium refuses while packing, raises an exception rather than silently losing or inventing data.",
 ["inputs","fault_sequences"],"every object sequence; open, read-past-end and disk-full faults; plain and XDR buffers",
 "Tests write one checkpoint in one program; there is no fault injection and no byte-level comparison of both modes.",
 ["pack_base.h","xdr_pack.cc"],
 [("FILE* mode of append/popoff","pack_base.h"),("xdrstdio streams","xdr_pack.cc")],
 ["pack_t(filename,mode)","xdr_pack(filename,mode)"])

prop("C04","Truncated or corrupt binary input never corrupts memory",
 "Unpacking any byte sequence - truncated, bit-flipped or random - into any supported type either succeeds with a well-formed object or raises an exception; it never reads outside the buffer, writes outside the target, performs undefined behaviour, or leaves the target or the buffer in a state that cannot be safely destroyed or reused.",
 ["inputs","fault_sequences"],"every byte string presented as a serialised object of every supported type",
 "No test unpacks malformed data; the space of corrupt buffers is unbounded.",
 ["pack_base.h","pack_stl.h","pack_graph.h","xdr_pack.cc"],
 [("bounds check on each extraction","pack_base.h popoff/unpackraw"),("size-prefixed containers and strings","pack_base.h, pack_stl.h")],
 ["operator>> on buffers holding hostile bytes"])

prop("C05","XDR packing is portable and loss-free",
 "The XDR buffer encodes fundamental values in the standard machine-independent XDR form (big-endian, 4-byte units, IEEE floating point), so the byte stream is the same on every platform and can be decoded by any conforming XDR reader; every value, string, raw block and object of any size packed into it unpacks to the same value, with reads, writes, rewinds and buffer reuse interleaved in any order. Values the format cannot represent (integers of type long beyond 32 bits, long double) are refused with an exception, never truncated.",
 ["inputs","histories"],"all fundamental values, payloads from 0 bytes to many buffer chunks, all interleavings of writes, reads, rewinds and swaps",
 "The tests pack a handful of small values; they never exceed one buffer chunk nor look at the encoded bytes.",
 ["xdr_pack.cc","pack_base.h"],
 [("xdr_* filters per basic type","xdr_pack.cc"),("chunked growth of the output stream","xdr_pack.cc")],
 ["xdr_pack public API, data()/size()"])

prop("C06","Binary streaming of plain data is exact",
 "Streaming plain-old-data values, arrays of them and standard containers of them (and lists and deques of such containers) through the binary stream adaptor over either a native or an XDR buffer reproduces every value bit for bit and every container's size and contents, in order, and may be mixed freely with ordinary packing on the same buffer.",
 ["inputs","histories"],"all POD values/containers and interleavings of streamed and packed items",
 "The single test streams a few fixed values once.",
 ["pack_base.h"],[("BinStream / BinStreamT operators","pack_base.h")],["BinStream operator<< and operator>>"])

prop("C07","Tree and graph serialisation preserves structure",
 "For any pointer structure of nodes of one type that follows the tree or graph protocol - including null links, shared nodes, self references and cycles, through plain pointers or counted references, of any size and depth and any recursion limit of two or more - unpacking what was packed yields an isomorphic structure with equal node contents and exactly the same sharing, without visiting or duplicating a node more than once. A structure packed after an earlier packing or unpacking failed with an exception is handled exactly as if the failure had not happened.",
 ["inputs","histories","fault_sequences"],"all finite graphs obeying the protocol, all recursion limits from 2, histories including failed operations",
 "The example programs use one small fixed graph and one recursion limit.",
 ["pack_graph.h","ref.h","pack_base.h"],
 [("depth-limited depth-first numbering with restart","pack_graph.h"),("alloced ownership list","pack_base.h")],
 ["pack/unpack of graphnode, treenode and ref<T> types"])

prop("C08","Counted references and buffer-owned nodes are freed exactly once",
 "Under any sequence of constructing, copying, assigning (including self-assignment and assignment of a target reachable from the reference), nullifying, swapping through containers and serialising counted references, every target object is destroyed exactly once, precisely when its last reference goes away, and reported reference counts equal the number of live references. Objects created while unpacking pointers live until the buffer owning them is destroyed or its ownership list is cleared, and are then destroyed exactly once.",
 ["histories"],"all histories of reference operations on any number of references and targets",
 "Tests exercise a few assignments; double frees and leaks need specific aliasing histories and instrumentation.",
 ["ref.h","pack_base.h","pack_graph.h"],
 [("reference count in the shared payload","ref.h"),("PtrStore/PtrStoreRef ownership list","pack_base.h")],
 ["ref<T> API","pack_t::alloced"])

prop("C09","Polymorphic objects keep dynamic type and contents",
 "Serialising an object held through a polymorphic base (smart pointer, object handle, containers of them, null included) in binary or XML form and reading it back produces an object of the same dynamic type with equal contents, regardless of what the receiving handle held before; cloning and copying do the same within the process, producing independent objects. A factory creates exactly the registered type for each registered key and raises an error for unknown keys.",
 ["inputs","histories"],"all hierarchies of registered types, all heterogeneous collections, all prior states of the receiver",
 "The polymorph examples round-trip one fixed pair of objects.",
 ["object.h","polyBase.h","polyPackBase.h","polyXMLBase.h","polyAccessPack.h","polyAccessXMLPack.h","poly.h","factory.h"],
 [("type id written before contents, factory on reading","object.h, polyAccessPack.h, polyAccessXMLPack.h"),("clone()","polyBase.h, object.h"),("registered constructors","factory.h")],
 ["pack/unpack, xml_pack/xml_unpack of shared_ptr<Base>","Factory::create"])

prop("C10","XML serialisation round trip",
 "Writing any object of a supported type as XML and reading that XML back into another object of the type - fresh or previously populated - reproduces every member that was written: numbers exactly (given sufficient stream precision), strings and characters including XML-special, whitespace and non-ASCII characters (as far as an XML document can represent them), symbolic enums, containers with their sizes and order, nested objects and pointers.",
 ["inputs","programs"],"every type built from supported parts and every value",
 "Tests round-trip one structure with tame string contents into fresh objects.",
 ["xml_pack_base.h","xml_unpack_base.h","xml_pack_epilogue.h","xml_common.h"],
 [("tagged element writing with quoting","xml_pack_base.h"),("content map keyed by element path","xml_unpack_base.h")],
 ["xml_pack / xml_unpack"])

prop("C11","Emitted XML is well-formed and says what the object holds",
 "Every document the XML serialiser emits, pretty-printed or not, is a well-formed XML document with a single root element as judged by an independent XML parser, declares the schema namespace it was given, and its element tree mirrors the object: one element per member, base-class members included (inline, or within an element base_<type> when the descriptor was generated with -onbase), named after the member and carrying the member's value, one element per container item named after the item type.",
 ["inputs","programs"],"every supported type, every value, both layouts",
 "Tests only read the XML back with the library's own lenient reader.",
 ["xml_pack_base.h","xml_pack_epilogue.h","xml_common.h"],
 [("tag/endtag/pretagPretty/quoting","xml_pack_base.h")],["output stream of xml_pack_t"])

prop("C12","XML reading is insensitive to layout and tolerant of schema drift",
 "The object obtained from a document does not depend on its layout: whitespace between elements, comments, processing instructions and the XML declaration, attribute order and quoting style, empty-element shorthand, CDATA versus escaped text, decimal or hexadecimal character references, and order of distinct sibling members. Members absent from the document keep their prior values, except that smart pointers become null (or raise the documented exception when the strict option is set), and unknown elements and attributes are ignored.",
 ["inputs"],"every document obtained from a valid one by these transformations, plus deletions and insertions of members",
 "The tests read two hand-written documents.",
 ["xml_unpack_base.h"],[("tokeniser and content map","xml_unpack_base.h")],["xml_unpack_t::parse and operator>>"])

prop("C13","XML parser is safe on arbitrary input",
 "For any byte sequence given as an XML document, parsing and then unpacking into any supported type terminates, in time proportionate to the input, with either a result or an exception: no out-of-bounds access, undefined behaviour, unbounded recursion or endless loop. (Documents nested deeper than the reader's fixed limit are refused with an exception.)",
 ["inputs"],"all byte strings up to a size bound, including mutated valid documents",
 "No test feeds malformed XML.",
 ["xml_unpack_base.h"],[("XMLtoken tokeniser, gobble_comment, process*","xml_unpack_base.h")],["xml_unpack_t(istream)"])

prop("C14","Generated XML schema is valid and accepts the emitted documents",
 "For every supported type, the generated XSD is a valid XML Schema in which every referenced type is defined exactly once, and every document emitted by the XML serialiser for an object of that type under the same root element name and target namespace validates against it. (Not covered, as undocumented: multiple inheritance without -onbase, containers of smart pointers, unique_ptr, containers of tuples, and tuples whose elements share an XML name but differ in type.)",
 ["programs","inputs"],"every supported class (bases, nested classes, enums, containers, optional pointers) and every value",
 "The test validates one structure; schema errors depend on combinations of types.",
 ["xsd_generate_base.h","xml_pack_base.h","xml_pack_epilogue.h","classdesc.cc"],
 [("dependency-collecting schema generator","xsd_generate_base.h")],["xsd_generate_t::output, xml_pack output, xmllint --schema"])

prop("C15","Descriptors visit every member exactly once, correctly",
 "For every class definition within the documented input language, the generated descriptor compiles and, applied to an object, visits each base class and each non-static data member exactly once, in declaration order, with the member's own name, address, type, array dimensions and enum/const/static status, and visits member functions by their proper pointers; it visits nothing else. This holds for nested, namespaced, templated, specialised, derived, anonymous and unusually formatted declarations alike. Enumerations are given as integers, or as symbolic handles under -typeName, and assigning through these changes exactly the enumeration. (As the documentation and the design have it: by default overloaded methods, constructors, destructors, operators, deleted and template methods are not visited; members of anonymous unions are not visited, named in-line unions are visited as arrays of char; private nested types and types nested in templates get no descriptor of their own; bit-fields, arrays of references and base pack expansions are outside the input language; base classes are named in full unless declared in the same namespace.)",
 ["programs"],"every class definition in the documented subset of C++",
 "Tests compile a few dozen fixed headers; the set of headers is unbounded and an omitted member is silent.",
 ["classdesc.cc","tokeninput.h","classdesc.h"],
 [("recursive-descent scan of class bodies and member registration","classdesc.cc"),("tokeniser","tokeninput.h")],
 ["calls made by the generated access_* functors"])

prop("C16","Processor options and pragmas select exactly what they promise",
 "With private members respected, precisely the public members and bases are described and by default all of them are; omit pragmas and suppression macros remove exactly the named descriptor for the named type; writing definitions to a work directory, or emitting member pointers instead of addresses, describes the same members with the same effect as inline generation; overloaded methods are described only on request, and the base-class variant is called for bases only.",
 ["programs","configurations"],"every header in the documented subset, all combinations of options",
 "Each option has one or two example headers in the tests; combinations are not covered.",
 ["classdesc.cc","use_mbr_pointers.h","classdesc_access.h"],
 [("option handling and emission","classdesc.cc main")],["output of the classdesc program, compiled and run"])

prop("C17","Processor output depends only on the declarations",
 "The descriptors generated for a header are the same, in effect, under any change of whitespace, line breaks, comments, line continuations or intervening code that is not a class or enum definition (functions with bodies, typedefs, forward declarations, preprocessor lines, string and character literals containing braces or quotes), and two runs on the same input, through a file or standard input, give identical output.",
 ["programs"],"all meaning-preserving reformattings of all supported headers",
 "The tests use each header in a single layout.",
 ["tokeninput.h","classdesc.cc"],
 [("comment and literal skipping in the tokeniser","tokeninput.h")],["stdout of classdesc"])

prop("C18","Processors are robust on arbitrary source text",
 "Given any input text up to 64 KB, with brackets nested no deeper than 200 - truncated, mutated or random - the descriptor processor and the friend-inserting processor terminate within a bounded time with a zero or non-zero exit status and never read or write out of bounds, exhaust memory, crash on a signal, or commit undefined behaviour.",
 ["inputs"],"all texts up to a size bound, notably truncations and mutations of real headers",
 "The tests only feed well-formed headers.",
 ["classdesc.cc","insert-friend.cc","tokeninput.h"],
 [("tokeniser end-of-input handling","tokeninput.h")],["exit status and sanitizer reports of classdesc and insert-friend"])

prop("C19","Symbolic enum conversion is a faithful bijection",
 "For every described enum, scoped or not, nested in a class or namespace, with arbitrary explicit values an int can hold, converting an enumerator to its symbolic name and back yields the same value (of enumerators sharing a value, any one names it), the key table lists precisely the declared enumerators in order with the compiler's values, iterating it yields matching names and values, and serialised enums read back to the same value.",
 ["programs","inputs"],"every enum declaration and each of its enumerators",
 "Tests use a couple of small enums.",
 ["classdesc.h","classdesc.cc","xml_pack_base.h","typeName_epilogue.h"],
 [("EnumKeys / Enum_handle","classdesc.h"),("enum_keysData emission","classdesc.cc")],["enum_keys<E>(), Enum_handle, XML text of enums"])

prop("C20","Type names are faithful and unambiguous",
 "The name typeName<T>() reports is the same whenever it is asked for, different for different types, and C++ code that uses the name (qualified with the namespaces it gives) denotes T again: for fundamental types, std::string and std::wstring, enumerations and classes whether nested or in namespaces, class templates with type, integral and variadic arguments and their partial specialisations, the standard containers with default comparators and allocators, pairs, tuples, smart pointers and Exclude, and pointers to, constants, lvalue references and (multidimensional) arrays of any of these, the const placed as in T. Not covered, because the names are deliberately general: volatile types, rvalue references, functions and pointers to them, iterators, and pointers or references to arrays.",
 ["programs"],"all types composed from fundamental, standard-library, and described user types",
 "Tests check a short list of names.",
 ["classdesc.h","typeName_epilogue.h","classdesc.cc","function.h"],
 [("typeName<T> specialisations and tn<T>","classdesc.h, typeName_epilogue.h"),("-typeName emission","classdesc.cc")],["typeName<T>()"])

prop("C21","Functional type traits report the true signature",
 "For every function pointer and member-function pointer type (const or not) of every supported arity, the reported arity, return type, argument types at each position, class, and function-kind predicates equal those of the actual type, in each supported language standard.",
 ["programs"],"all signatures with 0..N arguments of all argument kinds, C++98 through C++17",
 "Tests probe a few low arities; the unrolled code for high arities is never instantiated.",
 ["function.h","functiondb.sh","functiondb.h","functiondb0.h","functiondb20.h"],
 [("generated per-arity specialisations and variadic templates","functiondb*.h, function.h")],["Arity, Return, Arg, is_*_ptr"])

prop("C22","Reflected calls deliver the right arguments exactly once",
 "Calling a function or bound method through the functional layer - apply on an argument array, a bound method, currying, or a buffer-driven call - invokes the target exactly once, on the intended object, with argument i receiving argument i unchanged (lvalue references alias the caller's object where supported), and passes on its return value or exception; void results are handled as no value.",
 ["programs","inputs"],"all callable signatures of each supported arity and all argument values",
 "Tests call a few functions of up to three arguments.",
 ["function.h","functiondb.sh"],
 [("apply/callOnBuffer/bound_method/CurryFirst/CurryLast","function.h, functiondb*.h")],["target functions record their calls"])

prop("C23","Random initialisation fills everything with valid values",
 "Randomly initialising an object assigns every described member of it - at every array position and nesting level, in bases too - a value valid for its type: an enum whose names are described gets one of its enumerators, containers get a bounded number of initialised elements, strings and pointers are well formed; whatever admissible uniform random source is installed, no undefined behaviour occurs, and draws from distinct random streams vary in every member that can.",
 ["programs","inputs"],"every described type and every random source returning values in [0,1)",
 "Test checks that two draws differ for one struct with the default source.",
 ["random_init_base.h","random_init_epilogue.h"],
 [("random_init_t::rand virtual source and per-type overloads","random_init_base.h")],["random_init on instrumented sources"])

prop("C24","Dump shows every member and never alters the object",
 "Dumping an object writes, deterministically and without modifying the object, an entry for every described member at every nesting level, naming the member and showing its value (pairs by their key and value), with every element of arrays and containers present and in order.",
 ["programs","inputs"],"every described type and value",
 "The test dumps one object without looking at the text.",
 ["dump_base.h","dump_epilogue.h"],[("dump overloads","dump_base.h")],["the output stream"])

prop("C25","Excluded members are never serialised yet behave as plain members",
 "A member wrapped for exclusion is never read or written by any supplied descriptor: it contributes nothing to binary, XML, schema or dump output, and unpacking or random initialisation leaves it untouched, at any nesting depth and in containers. As a variable it copies, assigns, compares, converts and forwards operations like the wrapped type.",
 ["programs","histories"],"every wrapped type in every position, all descriptors",
 "The test checks one struct with a few descriptors.",
 ["classdesc.h","pack_base.h","xml_pack_base.h","xml_unpack_base.h","xsd_generate_base.h","dump_base.h","random_init_base.h"],
 [("Exclude<T> and its no-op overloads","classdesc.h and each *_base.h")],["bytes and text emitted; member values after unpack"])

prop("C26","Multidimensional arrays index and iterate consistently",
 "A multidimensional array of any rank and extents maps every valid index tuple to its own distinct element, reads back what was written there and nowhere else, iterates over each element exactly once in storage order at each level, with sizes, element access, sub-array views and views over external storage consistent with each other.",
 ["inputs","histories"],"all ranks, extents and write/read sequences",
 "One small fixed example.",
 ["multiArray.h"],[("stride computation and sub-array proxies","multiArray.h")],["public MultiArray API"])

prop("C27","Deep comparison is consistent with object contents",
 "Deep comparison of two objects is reflexive, antisymmetric and transitive, deep equality holds exactly when the objects' serialised contents are equal, and comparing never modifies either object.",
 ["inputs","programs"],"all pairs and triples of objects of supported types",
 "No test compares more than a few objects.",
 ["pack_base.h"],[("deepCmp/deepEq through pack","pack_base.h"),("pack_t::cmp","pack_base.h")],["deepCmp, deepEq"])

prop("C28","Friend insertion grants access and changes nothing else",
 "Running the friend-inserting processor over any text reproduces it verbatim except for access declarations added to it. Over a valid header it adds exactly one to the definition of every named class, and of every named struct that has private or protected members or bases - nested in classes or namespaces, defined outside its class, final, templated and specialised ones included - and none elsewhere (scoped enumerations, friend and elaborated declarations, classes local to functions); the result compiles and descriptors can then reach all private members.",
 ["programs"],"every header in the documented subset",
 "One shell test uses one header.",
 ["insert-friend.cc","tokeninput.h","classdesc_access.h"],[("class scanner in insert-friend","insert-friend.cc")],["stdout of insert-friend, compiled"])

prop("C29","Message buffers deliver each message intact, once, to its destination",
 "In an MPI program, objects sent, sent asynchronously, exchanged, broadcast, gathered or scattered with message buffers arrive at exactly the designated processes, once each, with equal contents, with source and tag reported correctly, gathered pieces in rank order and each scattered piece at its rank; buffers are reusable afterwards, for any message sizes including empty.",
 ["schedules","inputs","histories"],"all process counts, message sizes, tags and interleavings of collective and point-to-point operations",
 "The example programs use one fixed pattern on two or so processes.",
 ["classdescMP.h"],[("MPIbuf operations","classdescMP.h"),("MPIbuf_array wait/test","classdescMP.h")],["MPIbuf API under mpirun"])

prop("C30","Master-slave dispatch runs each request exactly once",
 "With the master/slave class, each command dispatched to a slave runs the named method on that slave exactly once with the arguments sent, its reply comes back attributed to the slave that computed it, the idle list at every quiescent point holds each idle slave exactly once, and shutting down terminates every slave.",
 ["schedules","histories"],"all numbers of slaves, dispatch orders and reply interleavings",
 "One example (mandelbrot) without checks.",
 ["classdescMP.h"],[("MPIslave::exec/get_returnv/wait_all_idle/slave loop","classdescMP.h")],["MPIslave API under mpirun"])

prop("C31","JSON serialisation round trip",
 "Writing any object of a supported type as JSON and reading it back reproduces its members, the JSON tree mirrors the object structure, and members missing from the document keep their value (or raise when the strict options are set).",
 ["inputs","programs"],"every supported type and value",
 "The JSON tests cannot run here (submodule absent) and use one structure.",
 ["json_pack_base.h","json_pack_epilogue.h","polyAccessJsonPack.h"],[("json_pack/json_unpack overloads","json_pack_base.h")],["json_pack_t tree"])

prop("C32","REST reflection reads, writes and calls the real object",
 "A path processed through the reflection registry addresses exactly the member, container element or method it names: a get returns its current value, a set changes that value and nothing else, a call runs the method once with the decoded arguments (selecting the overload that matches) and returns its result, and unknown paths or unusable arguments raise an error without changing the object.",
 ["inputs","histories"],"all registered objects, paths and argument lists; all histories of operations",
 "The REST tests cannot run here (submodule absent) and replay one script.",
 ["RESTProcess_base.h","RESTProcess_epilogue.h","signature.h"],[("RESTProcess_t::process and wrappers","RESTProcess_base.h")],["process(), asBuffer(), list(), signature()"])

prop("C33","Independent threads can serialise independent objects",
 "From C++11 on, threads that serialise (in binary, XDR or XML), deserialise, dump, describe, name, randomly initialise, clone or create independent objects, graphs and polymorphic hierarchies with independent buffers at the same time do not race, and obtain the same results as when run one after the other, once polymorphic types are registered; and setting the abort flag of an XML writer from another thread stops it with the abort exception: at most the item being written is finished, and what is open is closed.",
 ["schedules","inputs"],"all interleavings of threads over independent objects and buffers",
 "All tests are single-threaded.",
 ["pack_graph.h","classdesc.h","pack_base.h","factory.h","xml_pack_base.h"],[("function-local static tables","classdesc.h, pack_graph.h")],["ThreadSanitizer over the public API"])

prop("C34","Generated Java class files describe the C++ class",
 "The Java class file produced for a described C++ class is a valid class file, accepted by the Java tools, which declares a native method with the matching Java signature for every described non-static method (taking int, float or double arguments and returning a fundamental type) and the three accessors x, getX and setX for every described numeric, bool, char or enumeration member, and reading a class file into the class-file structure and writing it again reproduces it byte for byte.",
 ["programs","inputs"],"all classes of such members and methods, with their bases; all valid class files",
 "The Java tests are not run; one file is read back once.",
 ["javaClass.h","javaClass_base.h","javaClass_serialisation.h","javaClassDescriptor.h"],[("constant pool and method table construction","javaClass_base.h"),("class file packing","javaClass_serialisation.h")],["class file bytes, javap"])

prop("C35","Inheritance query is exact",
 "The runtime inheritance query answers true exactly when the first object's class is, or derives at any depth (through public inheritance, where private bases are respected) from, the second object's class.",
 ["programs"],"all pairs of classes in all described hierarchies",
 "One shell test with a small hierarchy.",
 ["isa_base.h","classdesc.cc"],[("descriptor recursion over bases","isa_base.h")],["isa(x,y)"])

prop("C36","String-keyed maps serialise under their own keys",
 "A map with string keys that is declared to be an XML object serialises each entry whose value is not a null pointer as an element named by its key, reading such a document yields exactly the keys and values present in it, whatever the map held before, a document without the map leaves it alone, and the schema of a class holding one accepts its documents.",
 ["inputs"],"all maps with valid element names without full stops as keys and all supported value types",
 "No test in the runnable suite covers it.",
 ["stringKeyMap.h","stringKeyMap_epilogue.h"],[("StringKeyMap descriptors","stringKeyMap_epilogue.h")],["xml_pack/xml_unpack of StringKeyMap"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
