#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing the table)."""
import json, pathlib

S = "strong_typing/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Scalar decoding takes only the matching JSON kind and reads all of it",
     "Decoding JSON to None, bool, int, float, str, bytes, datetime, date, time, timedelta, UUID, IPv4Address or IPv6Address succeeds only for the JSON kind that represents the type (null; boolean; integer; integer or fractional number; string for all others), a JSON boolean never counts as a number, and every other kind raises JsonTypeError. "
     "On success bool, int and str yield the given value unchanged and float its numeric value, and each string-represented type yields the standard library's reading of the complete string: strict Base64 for bytes; ISO 8601 for datetime, date and time, where a final `Z` on a timestamp means UTC; UUID and IP address syntax. "
     "A timestamp without a time zone is rejected with JsonValueError.",
     ["inputs"], "every JSON value of every kind, for each of the 13 scalar types",
     "Tests try one or two well-formed values and a wrong kind per type; strings, numbers and kinds are unbounded.",
     ["deserializer.py"], [("leaf parsers", "deserializer.py"), ("dispatch on the requested type", "deserializer.py")],
     ["json_to_object", "create_deserializer(...).parse"])

prop("C02", "Bad input data never escapes as anything but a Json*Error",
     "When an engine for a supported type has been built, decoding any JSON value with it either returns a value or raises JsonKeyError, JsonTypeError or JsonValueError. "
     "No other exception type (ValueError, TypeError, KeyError, AttributeError, OverflowError, binascii or ipaddress errors, ...) raised by the library or by a standard-library parser it calls escapes, at any nesting depth.",
     ["inputs"], "every JSON value, every supported type: scalars, enums, literals, containers, dict with enum keys, classes, unions and tagged unions",
     "Tests probe a handful of malformed inputs; the claim is about every string, number and shape.",
     ["deserializer.py", "exception.py"], [("parse functions and the exceptions their callees may raise", "deserializer.py")],
     ["json_to_object", "create_deserializer(...).parse"])

prop("C03", "Containers decode element by element, in order, with nothing lost",
     "Decoding to list[T], set[T], dict[K, V] or a fixed-length tuple decodes every element of the JSON array or object exactly once with the element type's decoder, keeps array order for list and tuple, pairs each tuple position with its own type, keeps each dict key with its value (converting keys of a string-valued enum to members), and returns the corresponding Python container. "
     "An array whose length differs from the tuple type's length raises JsonValueError; a JSON value of another kind raises JsonTypeError; a failing element makes the whole decode fail with that element's error. A dict type whose keys are neither str nor members of an enum with string values only is refused with JsonTypeError or TypeError.",
     ["inputs"], "every array and object, every element type (the element decoder is opaque), every key type accepted",
     "Tests use a few short containers of ints and strings.",
     ["deserializer.py"], [("list/dict/set/tuple decoders", "deserializer.py")], ["json_to_object"])

prop("C04", "Class decoding follows the required/optional/default field table",
     "Decoding a JSON object to a data class (frozen or not), named tuple or annotated plain class produces an instance of that class in which every field holds the decoder's result for its own JSON property when that property is present and not null. "
     "Absent or null: a data class or named tuple field with a default value or factory gets that default (the factory called anew for each object), an Optional field without default gets None, any other field raises JsonKeyError when absent and JsonValueError when null. "
     "A property that no field maps to raises JsonKeyError, unless decoding was asked to skip unassigned properties, in which case it is ignored; a value that is not a JSON object raises JsonTypeError.",
     ["inputs", "programs"], "every class shape (field kind x default x optionality) and every presence/null/extra-property combination",
     "The presence x null x default x class-kind table is combinatorial; tests sample a few cells.",
     ["deserializer.py", "inspection.py"], [("field decoders", "deserializer.py"), ("object creation", "inspection.py")],
     ["json_to_object"])

prop("C05", "One JSON property name per field everywhere in the library",
     "For every class field, the property name the serializer writes, the decoder reads, the JSON schema lists (in properties and in required) and a tagged union dispatches on is the same: the Alias annotation's name if there is one, else the field name without its final underscore when the rest is a Python keyword, else the field name unchanged.",
     ["programs"], "every field name and annotation, every class kind (data class, named tuple, plain annotated class)",
     "Tests check a few aliases in one direction at a time; nothing checks that the parties agree.",
     ["mapping.py", "serializer.py", "deserializer.py", "schema.py"],
     [("field-to-property mapping", "mapping.py"), ("its users", "serializer.py"), ("its users", "deserializer.py"), ("its users", "schema.py")],
     ["object_to_json", "json_to_object", "classdef_to_schema"])

prop("C06", "Untagged unions decode to the first member that accepts the value",
     "Decoding to a union (Union[...], Optional or X | Y) that has no common literal-typed property tries members in declaration order and returns the first member's result that succeeds; any data error of a member (JsonKeyError, JsonTypeError or JsonValueError) only moves on to the next member. "
     "When no member accepts the value, JsonKeyError is raised.",
     ["inputs", "programs"], "every union of decodable members, every pattern of member success and failure",
     "Tests use two or three member unions whose members fail in one particular way.",
     ["deserializer.py"], [("union decoder", "deserializer.py")], ["json_to_object"])

prop("C07", "Tagged unions decode with exactly the member the tag selects",
     "Decoding to a union of classes that share a literal-typed property uses the member whose literal admits the property's value in the data and only that member: its result or error is the outcome. "
     "A JSON value that is not an object, a tag that is missing or null, and a tag value no member declares raise JsonTypeError. "
     "Two members that declare the same tag value are rejected with JsonTypeError when the decoder is built.",
     ["inputs", "programs"], "every tag value of any JSON kind, members with one or several literal values",
     "Tests use one two-member union and string tags.",
     ["deserializer.py"], [("tagged-union decoder and its dispatch table", "deserializer.py")], ["json_to_object"])

prop("C08", "Enum and Literal decoding yields a declared member or fails",
     "Decoding to an enum returns the member whose value equals the given JSON value and otherwise raises JsonTypeError or JsonValueError; decoding to Literal[...] returns the given value when it is one of the listed values with the same type (so a boolean never matches an integer literal) and otherwise raises JsonTypeError. "
     "A Literal whose values have different types is rejected with TypeError when the engine is built.",
     ["inputs"], "every JSON value against every enum and literal type",
     "Tests try one valid and one invalid value.",
     ["deserializer.py"], [("enum and literal decoders", "deserializer.py")], ["json_to_object"])

prop("C09", "Decoding and encoding results do not depend on earlier calls",
     "The outcome of creating or using a serializer, decoder or schema generator depends only on its arguments (type, options, context, data) and on the explicitly registered schemas, never on which types, options or failing calls were processed before. "
     "In particular engines built for different options, or for different classes that share a name, never substitute for each other, and a failed construction leaves nothing behind that a later call can observe.",
     ["histories"], "every sequence of prior calls with any types, same-named classes, options and failures",
     "Tests run each call in a mostly fresh state; histories are unbounded.",
     ["deserializer.py", "serializer.py", "schema.py"],
     [("decoder cache", "deserializer.py"), ("serializer cache", "serializer.py"), ("schema generator's used-types state", "schema.py")],
     ["json_to_object", "object_to_json", "classdef_to_schema"],
     [("decoder cache", "engines reused across calls", "strong_typing/deserializer.py"), ("serializer cache", "engines reused across calls", "strong_typing/serializer.py")])

prop("C10", "Shared engine caches never expose an unfinished engine to other threads",
     "Any engine object that one thread can obtain from state shared between calls (module-level or class-level caches) is fully built, or is only reachable while holding the lock under which it is being built. "
     "No interleaving of first uses of the same type by several threads makes a call fail or return a different result than when run alone.",
     ["schedules"], "every interleaving of concurrent decoder/serializer creation for the same or mutually recursive types",
     "No test runs threads; a race needs a particular interleaving.",
     ["deserializer.py", "serializer.py"], [("cache publication order and locking", "deserializer.py")], ["create_deserializer", "create_serializer"],
     [("decoder cache", "engines under construction are visible here", "strong_typing/deserializer.py")])

prop("C11", "Scalar encoding is the exact inverse of what the decoder reads",
     "Encoding returns None, bool, int, float and str values unchanged; bytes become standard Base64 text; date, time and datetime their ISO format at full precision (datetime with a final `+00:00` written as `Z`); UUIDs and IP addresses their canonical text; enum members their value. "
     "A datetime without time zone is rejected with JsonValueError, every other value of these types encodes, and decoding the encoded text with the same type's decoder applies the standard library parser that inverts the formatter used.",
     ["inputs"], "every value of each scalar type",
     "Tests encode one to three values per type.",
     ["serializer.py", "deserializer.py"], [("leaf serializers", "serializer.py"), ("leaf decoders", "deserializer.py")], ["object_to_json", "json_to_object"])

prop("C12", "Every non-negative timedelta survives encoding and decoding exactly",
     "For every non-negative timedelta the encoder yields an ISO 8601 duration string that the decoder's grammar accepts, and decoding it gives back the same number of days, seconds and microseconds. "
     "The decoder's arithmetic is 7 days per week, 3600 s per hour, 60 s per minute, with up to nine fractional digits read as a decimal fraction of a second, and rejects fractions finer than a microsecond with JsonValueError instead of truncating them.",
     ["inputs"], "every timedelta with days >= 0; every string of the duration grammar",
     "Tests use about ten durations of the astronomically many.",
     ["serializer.py", "deserializer.py"], [("duration formatter", "serializer.py"), ("duration grammar and arithmetic", "deserializer.py")], ["object_to_json", "json_to_object"])

prop("C13", "Encoding writes every non-None field and every element exactly once",
     "Encoding an instance of a data class, typed named tuple or annotated plain class yields a JSON object with exactly one property per field whose value is not None (falsy values included), in field order, holding the encoding of that field's value; None fields are omitted. "
     "Encoding a list, tuple, set or dict yields a JSON array or object with the encoding of every element, in iteration order, None elements included as null; str keys stay unchanged, enum keys become their values and every key is written as a string; a serializer for a dict type whose keys are neither str nor members of an enum with string values only is refused.",
     ["inputs", "programs"], "every object and container; element encodings are opaque",
     "Tests encode a few objects with truthy fields.",
     ["serializer.py"], [("class and container serializers", "serializer.py")], ["object_to_json", "create_serializer(...).generate"])

prop("C14", "Custom to_json / from_json methods are honoured everywhere",
     "A class that defines `to_json` is encoded by calling it with the object and a class that defines `from_json` is decoded by calling it with the JSON data, and the result is used as is. "
     "This holds for data classes, plain classes, enums and named tuples, and wherever the type occurs: at top level, as a field, inside containers, optionals, unions and Annotated.",
     ["programs"], "every kind of class defining the hooks, every position in a type",
     "Tests define the hooks on one plain class at top level.",
     ["serializer.py", "deserializer.py"], [("dispatch order of the engines", "serializer.py"), ("dispatch order of the engines", "deserializer.py")],
     ["object_to_json", "json_to_object"])

prop("C15", "Encoder, decoder and schema support the same types, Annotated included",
     "Each type the documentation lists as supported for data interchange (None, bool, int, float, str, bytes, datetime, date, time, timedelta, UUID, IPv4Address, IPv6Address, enums, literals, list, dict, set, tuple, Optional, unions in both spellings, data classes, named tuples, annotated classes) is accepted by the encoder, the decoder and the schema generator alike. "
     "Wrapping any of them in Annotated with metadata that is not library-defined changes nothing about what the three do. A literal that mixes value types is refused by all three.",
     ["programs"], "every supported type constructor, bare, nested in containers and fields, and wrapped in Annotated",
     "Each engine has its own dispatch chain and its own tests; nothing compares them.",
     ["serializer.py", "deserializer.py", "schema.py"], [("dispatch chains", "serializer.py"), ("dispatch chains", "deserializer.py"), ("dispatch chains", "schema.py")],
     ["create_serializer", "create_deserializer", "classdef_to_schema"])

prop("C16", "The JSON schema mirrors the structure of the Python type",
     "The schema generated for a type follows the documented mapping: scalar types to their type/format/contentEncoding; fixed-width integers and floats to their format; IntegerRange, Precision, MinLength and MaxLength to the corresponding bounds; list, set (unique), tuple (positional, fixed length), dict, enum, Literal and union types to array, object, enum, const and oneOf forms with the members' schemas in order. "
     "A class becomes an object schema with one property per field holding that field's type's schema, no additional properties, and in `required` exactly the fields that are not Optional, with JSON-representable default values that the class holds as attributes shown as `default`. "
     "Documentation of class and fields appears as title and description, and is left out of the class's title and description when descriptions are disabled.",
     ["programs"], "every type built from the supported constructors",
     "Tests compare the schemas of a few dozen sample types.",
     ["schema.py", "auxiliary.py"], [("type-to-schema mapping", "schema.py"), ("auxiliary type table", "auxiliary.py")], ["classdef_to_schema"])

prop("C17", "Every reference in a generated schema has its definition",
     "In a schema generated for any type over registered types, every `$ref` points to an entry of the returned definitions, and that entry is the schema of the type registered under that identifier, including types reached only through other definitions and recursive types. "
     "The definitions contain only types that are referenced, and no call ever leaves state in the generator that changes a later call's definitions.",
     ["programs", "histories"], "every reference graph among registered types, every sequence of generator calls including failing ones",
     "Tests register a few types with shallow reference graphs.",
     ["schema.py"], [("definition closure loop", "schema.py")], ["classdef_to_schema", "JsonSchemaGenerator.classdef_to_schema"],
     [("types used", "identifiers referenced so far", "strong_typing/schema.py")])

prop("C18", "Returned schemas share no mutable state with the registry or the caller",
     "Modifying a returned schema (or any nested list or dict of it) never changes registered schemas, registered examples or later results, and generating a schema never modifies the objects passed at registration. "
     "This covers user-supplied schemas, examples, and schemas reused for several properties of one type.",
     ["histories"], "every registered schema/example and every later mutation of a result",
     "No test mutates a result and generates again.",
     ["schema.py"], [("copying at the registry boundary", "schema.py")], ["classdef_to_schema", "register_schema"],
     [("type catalog", "registered schemas and examples", "strong_typing/schema.py")])

prop("C19", "Type predicates and unwrappers agree for every spelling of a type",
     "For each documented type category (optional, union, literal, list, set, dict, enum, data class, named tuple, annotated) the predicate is true exactly for the types of that category, whether spelled Optional/Union or with `|`, and gives the same answer when the type is wrapped in Annotated. "
     "Whenever a predicate is true the matching unwrap function succeeds and returns the inner types exactly, re-attaching Annotated metadata where documented; on a type that is not a union at all the unwrap functions for optional and union raise TypeError.",
     ["programs"], "every type built from the typing constructors in both spellings, annotated or not",
     "Tests sample each predicate on a few spellings.",
     ["inspection.py"], [("predicates and unwrappers", "inspection.py")], ["is_type_optional", "unwrap_optional_type", "is_type_union", "is_generic_list", "..."])

prop("C20", "Recursive inspection visits every nested type and value",
     "get_referenced_types returns exactly the types reachable through fields, containers, unions, optionals, Annotated and forward references; is_generic_instance is true exactly when the object and all its elements (with matching tuple length) are instances of the type's components; check_recursive applies the predicate to every nested scalar, enumeration, literal and union member (recursing through data classes, named tuples, annotated classes, lists, sets, tuples and dictionary values) and is true exactly if it holds for all. "
     "All of them accept both union spellings and Annotated in any position. check_recursive raises TypeError for a container, enumeration or class instance that is not of the declared kind, is_generic_instance for anything that is not a type.",
     ["programs", "inputs"], "every type and every object nesting",
     "Tests use shallow samples; omissions in one branch of the traversal go unnoticed.",
     ["inspection.py"], [("type collector", "inspection.py"), ("instance check", "inspection.py"), ("recursive checker", "inspection.py")],
     ["get_referenced_types", "is_generic_instance", "check_recursive"])

prop("C21", "Docstring parsing is total and loses nothing; mismatches are errors",
     "parse_text accepts any text and returns a Docstring whose short description, long description, params, returns, raises and see-also entries are exactly the corresponding parts of the text, each with its full whitespace-normalised text (multi-line entries included), and printing a Docstring writes all of those parts. "
     "parse_type and check_docstring raise TypeError exactly when a documented parameter is not a member of the data class or not a parameter of the function, a return value is documented without return annotation, a documented exception is unknown, or in strict mode something is undocumented.",
     ["inputs", "programs"], "every docstring text; every combination of declared and documented members",
     "Tests parse a few well-formed docstrings.",
     ["docstring.py"], [("docstring grammar", "docstring.py"), ("signature checks", "docstring.py")], ["parse_text", "parse_type", "check_docstring", "str(Docstring)"])

prop("C22", "Schema-to-type conversion inverts the schema generator",
     "Converting a schema to a type maps each schema construct to the type whose generated schema it is: boolean, integer (with int16/int32/int64), number (with float32/float64 and decimal precision), string formats, constants, string enums, maximum length, arrays, references, oneOf and objects. "
     "For objects, every property becomes one field in which required properties keep their type and others become Optional, a default is decoded with the property's type, fields with defaults come last, titles and descriptions become documentation, and additional properties other than false are rejected with TypeError; an object of unspecified properties is any JSON value. A reference that does not name a definition raises ValueError.",
     ["inputs"], "every schema of the supported subset",
     "Tests convert a dozen schemas.",
     ["classdef.py"], [("node-to-type mapping", "classdef.py")], ["schema_to_type"])

prop("C23", "Flattening a schema lifts nested properties without losing any",
     "Flattening an object schema replaces each object-typed property by that object's properties (qualified with the parent name when asked, recursively when asked), keeps every other property and its schema unchanged, and keeps a property required exactly if it was required in the object it came from. "
     "Provided the resulting names are distinct, no property other than the replaced object itself disappears (an object without properties contributes none), and the input schema is never modified.",
     ["inputs"], "every object schema, all option combinations",
     "Tests flatten two schemas.",
     ["classdef.py"], [("flattener", "classdef.py")], ["flatten_schema"])

prop("C24", "Topological sorting returns every node after its dependencies",
     "topological_sort returns each node exactly once, every node after all nodes it points to, ignoring self references, and raises RuntimeError exactly when there is a cycle of two or more nodes. "
     "type_topological_sort does the same for the given types, all types they reference and all dependencies reported by dependency_fn for any of these, for any iterable of types, and returns only such types. (Graphs so deep that they exhaust the interpreter's recursion limit are outside the property.)",
     ["inputs"], "every graph; every set of types and dependency function",
     "Tests sort a few small graphs and one class set.",
     ["topological.py", "inspection.py"], [("depth-first search with marks", "topological.py"), ("type graph", "inspection.py")], ["topological_sort", "type_topological_sort"])

prop("C25", "Fixed-width types, ranges, formats and names agree",
     "For each intN and uintN the declared signedness, storage size and value range are those of an N-bit integer, floatN takes N/8 bytes, the JSON format string and the printed short name equal the public name, and converting an integer schema with a minimum and a maximum back picks the smallest of int16, int32 and int64 that contains the whole range, or int when none does. User-defined annotations made with typeannotation are frozen data classes (compared, and ordered if asked, by their members) whose text lists the member values in order.",
     ["inputs", "programs"], "all fixed-width types and every integer range",
     "Tests touch a few constants and ranges.",
     ["auxiliary.py", "classdef.py", "name.py"], [("auxiliary types and their table", "auxiliary.py"), ("range-to-type", "classdef.py")],
     ["auxiliary.int8 ... float64", "get_auxiliary_format", "integer_range_to_type"])

prop("C26", "The library stays usable on every Python version it declares",
     "Every module imports and every function can run on all Python versions the package declares (3.9 and later): syntax, standard-library names and call signatures newer than the oldest declared version are used only under a version check that holds for them, and removed ones only under a check for older versions; and type predicates, conversions, schemas, names and documentation come out the same on all of them.",
     ["configurations"], "Python 3.9 through 3.14",
     "Tests run on one interpreter version.",
     ["auxiliary.py", "inspection.py", "name.py", "classdef.py", "deserializer.py", "serializer.py", "schema.py", "docstring.py"],
     [("sys.version_info guards", "inspection.py"), ("sys.version_info guards", "auxiliary.py")], ["import strong_typing"])

prop("C27", "The library never modifies the caller's data or foreign types",
     "Decoding, encoding, validating, inspecting, docstring parsing, schema generation, flattening and schema-to-type conversion leave every object they are given (JSON data, Python objects, options, schemas, types) unchanged, and never change attributes of types or modules the caller did not ask to be modified. "
     "Decoded and encoded containers and objects are new: mutating them changes neither the input nor a later result (declared default values, which Python shares too, and what custom conversion methods return are used as they are).",
     ["inputs", "histories"], "every input and every supported type",
     "Tests do not compare inputs before and after.",
     ["deserializer.py", "serializer.py", "schema.py", "classdef.py", "inspection.py", "docstring.py"],
     [("all public entry points", "serialization.py")], ["json_to_object", "object_to_json", "classdef_to_schema", "schema_to_type", "flatten_schema"])

prop("C28", "Type names printed by the library are complete and faithful",
     "python_type_to_str prints every supported type with all of its parts (every type argument, literal value, union member and annotation, in order, `Optional[T]` for exactly one type with None, `|` when asked, the short name for auxiliary types with any further annotations listed) and never fails on one; anything that is not a type is a ValueError. "
     "TypeFormatter applies its type and value transformations to every class and literal value it prints. python_type_to_name gives the short name of simple types (annotations dropped); for containers, tuples, type[T], Optional and unions, when forced, a structured name that lists all members in order, recursively; and TypeError for other composite types or when not forced.",
     ["programs"], "every type expression",
     "Tests print a few types.",
     ["name.py"], [("type formatter", "name.py")], ["python_type_to_str", "python_type_to_name", "TypeFormatter"])

prop("C29", "Forward references resolve in the module that wrote them",
     "A type given as a string or forward reference is resolved in the supplied context, else (for json_to_object and json_to_generic) in the module of the code that called the function; a class member's reference is always resolved in the module that defines the class, whatever the context and however deeply the class is nested in other types. "
     "A reference given to an engine without any context raises TypeError.",
     ["programs"], "every position of a reference in a type; every caller and defining module",
     "Tests use references within a single module.",
     ["serialization.py", "deserializer.py", "serializer.py", "inspection.py"],
     [("caller-frame context", "serialization.py"), ("context switching at class boundaries", "deserializer.py"), ("context switching", "serializer.py")],
     ["json_to_object", "json_to_generic", "create_serializer", "create_deserializer"])

prop("C30", "Recursive types build finite engines",
     "Creating a decoder, serializer or (with the types registered) schema for self-referencing or mutually recursive classes terminates, whatever the position of the reference (Optional, list, dict, set, tuple, union, Annotated), and the resulting engine handles data nested to any depth with the same engine at every level. "
     "get_referenced_types and topological sorting terminate on them as well.",
     ["programs"], "every cycle of class references through any container",
     "Tests contain one or two recursive classes.",
     ["deserializer.py", "serializer.py", "schema.py", "inspection.py"],
     [("early cache entry", "deserializer.py"), ("type catalog references", "schema.py"), ("visited set", "inspection.py")],
     ["create_deserializer", "create_serializer", "classdef_to_schema", "get_referenced_types"])

prop("C31", "Encoding then decoding returns an equal object",
     "For every object whose fields hold values of their declared types and contain no None where a non-None default is declared, decoding the encoding of the object with the object's class yields an object equal to the original.",
     ["inputs", "programs"], "every supported class and every value",
     "Value equality over all runtime values; tests sample a few objects.",
     ["serializer.py", "deserializer.py"], [("all encoders and decoders", "serializer.py")], ["object_to_json", "json_to_object"])

prop("C32", "What validates against the generated schema is what decodes",
     "A JSON value validates against the schema generated for a type exactly if the decoder for that type accepts it.",
     ["inputs", "programs"], "every type and every JSON value",
     "Two languages over unbounded inputs are compared; tests sample values.",
     ["schema.py", "deserializer.py"], [("schema generator and decoder", "schema.py")], ["validate_object", "json_to_object"])

prop("C33", "Helpers that create or list modules, classes and enumerations are exact",
     "create_module returns a new empty module registered under exactly the given name and raises KeyError, changing nothing, if the name is taken. create_data_type returns a data class of the given name whose fields are exactly the given names and types in order, with slots and no instance dictionary. "
     "create_object returns an instance of exactly the given type without running its constructor or initializer. extend_enum yields an enumeration with the name, module and documentation of the extending class, the members of the source followed by those of the extending class with their values, placed in the module of the extending class, and raises ValueError if two members share a value. "
     "enum_value_types lists each value type once in definition order; get_module_classes and get_module_functions list exactly the classes and functions declared in the module, not imported ones; dataclass_fields and dataclass_field_by_name give each field with its name, resolved type and default, and raise LookupError for an unknown name; get_class_property gives None for an unknown name.",
     ["inputs", "programs"], "every list of members, every mix of declared and imported names",
     "Tests create one module and list the classes of one module.",
     ["inspection.py"], [("dynamic creation", "inspection.py"), ("module listings", "inspection.py")], ["create_module", "create_data_type", "create_object", "extend_enum", "enum_value_types", "get_module_classes", "get_module_functions", "dataclass_fields", "dataclass_field_by_name", "get_class_property"])

prop("C34", "Registration, validation and JSON text do exactly what they are asked",
     "register_schema and json_schema_type (with and without parentheses) return the class itself and associate it with the given schema, name and examples, or the derived schema and name; get_schema_identifier then returns that name, and None for any type that is not registered; registering a type twice raises ValueError and a forward reference TypeError, leaving the registry as it was. "
     "classdef_to_schema raises TypeError for anything that is not type-like and for a schema its meta-schema rejects, checks against the validator asked for and states that validator's identifier; validate_object validates the very data given against the schema of the very type given, with format checking, and lets the validation error through. "
     "json_dump_string and json_dump write the same compact JSON text, with members in the order of the object and characters beyond ASCII as they are; json_dump adds one line break; print_schema prints the schema of the type as JSON.",
     ["inputs", "programs"], "every type, name, schema, validator and JSON value",
     "Tests register a few types and dump nothing.",
     ["schema.py", "serialization.py"], [("type catalog", "schema.py"), ("validators", "schema.py"), ("JSON text", "serialization.py")], ["register_schema", "json_schema_type", "get_schema_identifier", "classdef_to_schema", "validate_object", "print_schema", "json_dump_string", "json_dump"])

prop("C35", "Objects without declared types are encoded whole; unsupported types are refused",
     "An object whose class declares no types is encoded as a JSON object with one entry per visible attribute (of the instance or its classes, properties included) that is not None, not a method and not a reserved name (`__name__`, `_abc_impl`), under its JSON name (underscore after a keyword dropped); an untyped named tuple with one entry per field; the values are encoded recursively. "
     "Functions, methods, classes and modules are refused with TypeError wherever they occur in an object to encode or as a type to encode. The decoder factory refuses bare list, dict, set and tuple, instances, values and unrecognized forms given as a type with TypeError, at any depth and before it sees data.",
     ["inputs", "programs"], "every set of attributes with any values; every nesting of an unsupported type",
     "Tests encode a couple of such objects.",
     ["serializer.py", "deserializer.py"], [("untyped class and named tuple encoders", "serializer.py"), ("refusals", "serializer.py"), ("refusals", "deserializer.py")], ["object_to_json", "create_serializer", "create_deserializer", "json_to_object"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
