#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only for readability of the long texts).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
NOT="The nine reliable tests sample a few Decimal, Timestamp, UUID and UnitValue literals; nothing reaches this code, and the domain is unbounded."
prop("C01","Model construction indexes exactly the declared types and actions",
 "Building a model from a schema succeeds if and only if no two types share a name, no type takes the name of a base type, and no two HTTP actions share a name. On a built model, looking up a name yields exactly the declared type (or the predefined base type) or action of that name, and nothing for any other name. The schema itself is carried over unchanged.",
 ["inputs"],"every schema (any number of types and actions, any names) and every looked-up name",NOT,
 ["model.go","schema.go"],[("NewModel","model.go"),("Model.FindType","model.go"),("Model.FindHttp","model.go")],
 [("typeIndex","name to type definition","model.go"),("httpIndex","name to action","model.go")],["NewModel result","FindType","FindHttp"])
prop("C02","Numeric validation enforces the declared and the natural range",
 "Validating a decimal value against a numeric type accepts it if and only if it is at least the effective minimum and at most the effective maximum, both inclusive: the declared bound where there is one, otherwise the natural range of the integer type (Int8, Int16, Int32, Int64), otherwise no bound. Anything that is not a decimal number is rejected by every numeric type.",
 ["inputs"],"every numeric type, every combination of declared bounds, every value",NOT,
 ["model.go","decimal.go"],[("Model.ValidateNumber","model.go"),("DecimalValue","decimal.go"),("Model.IsNumericType","model.go")],(),["Model.Validate","Model.ValidateAgainstTypeSpec"])
prop("C03","Text-like scalars are validated against every declared constraint",
 "A value conforms to a String type if and only if it is a string whose length is within minsize and maxsize, that is one of the listed values when values are declared, and that otherwise matches the pattern when one is declared. A value conforms to an Enum exactly if it is a string that is one of its symbols, to Bool exactly if it is a boolean, to UUID exactly if it is a UUID or a text in UUID format, to Timestamp exactly if it is a timestamp or a text in timestamp format, and to UnitValue exactly if it is a text '<number> <unit>' whose two parts conform to the declared value and unit types.",
 ["inputs"],"every type spec with any combination of constraints and every value",NOT,
 ["model.go","uuid.go","timestamp.go"],[("Model.ValidateString","model.go"),("Model.ValidateEnum","model.go"),("Model.ValidateUUID","model.go"),("Model.ValidateBool","model.go"),("Model.ValidateTimestamp","model.go"),("Model.ValidateUnitValue","model.go")],(),["Model.Validate","Model.ValidateAgainstTypeSpec"])
prop("C04","Composite validation is exactly element-wise conformance",
 "A value conforms to a Struct if and only if it is an object in which every key is a declared field, every required field is present and every present field conforms to its field type; to an Array (Map) if and only if it is a list (object) whose size is within minsize and maxsize and all of whose items conform to the item type; to a Union if and only if it is an object with exactly one key, naming a variant, whose value conforms to that variant's type. A reference to a named type validates exactly as the named type's definition, and a reference to an unknown type is always an error.",
 ["inputs"],"every model, type spec (any nesting and mutual reference) and value",NOT,
 ["model.go"],[("Model.ValidateAgainstTypeSpec","model.go"),("Model.Validate","model.go"),("Model.ValidateStruct","model.go"),("Model.ValidateArray","model.go"),("Model.ValidateMap","model.go")],(),["Model.Validate","Model.ValidateAgainstTypeSpec"])
prop("C05","Type equivalence compares types by value and never conflates types",
 "Two type specs are judged equivalent only if they have the same base type and equal constraint values (pattern, reference, minimum and maximum sizes, numeric minimum and maximum, allowed values), the same enum symbols, the same union variant types, the same struct fields and equivalent item, key, unit and value types. A spec is always equivalent to a separately built copy of itself, and the judgement does not depend on the order of the two arguments.",
 ["inputs"],"every pair of type specs in every model",NOT,
 ["model.go"],[("Model.EquivalentTypes","model.go"),("Model.EquivalentTypesByName","model.go")],(),["EquivalentTypes"])
prop("C06","Inline enum conversion preserves the model's meaning",
 "Converting inline enums replaces every struct field of inline Enum type by a reference to a top-level Enum type with the same elements, named from the struct and the field, and leaves every other field and type untouched; afterwards every type list entry is found under its name and names remain unique. If two non-equivalent definitions would need the same name the conversion reports an error.",
 ["inputs"],"every model with any number of structs and inline enum fields",NOT,
 ["model.go"],[("Model.ConvertInlineEnums","model.go"),("Model.EquivalentTypes","model.go")],(),["Model.Types","FindType"])
prop("C07","Example targets resolve to the type they name or to an error",
 "The type found for an example target is the one obtained by starting at the named type, or at the named input of an action's Request or the named expected output of an action's Response, and following the remaining path components as field names. Any component that does not exist, an unknown root, or a step into something that is not a Struct is an error, never a wrong type and never a crash.",
 ["inputs"],"every model and every dotted target string",NOT,
 ["model.go"],[("Model.FindExampleType","model.go")],(),["FindExampleType"])
prop("C08","Configuration lookups follow the key path exactly and coerce by type",
 "Looking up a non-empty sequence of keys in a data document yields the value reached by following exactly those keys through nested objects, and nothing as soon as a key is missing or an intermediate value is not an object; storing a value under a key makes exactly that key return it. The typed accessors return the value when it has the requested type (a text pointer counts as its text, numbers of any width as integers, and as a boolean every present value other than false and the text 'false' is true) and the type's zero value otherwise; generator configuration lookups return the configured value if present and not null and the default otherwise. A document read from JSON text or from a .json or .yaml file is exactly the one written; a missing or malformed one is an error.",
 ["inputs","configurations"],"every document, every key sequence (any length) and every value type",NOT,
 ["data.go","struct_helpers.go","generator.go"],[("Data.get","data.go"),("Data.Put","data.go"),("DataFromFile, DataFromJson","data.go"),("AsString, AsBool, AsInt, AsInt64, AsFloat64, AsArray, AsMap, AsStringArray","struct_helpers.go"),("Generator.GetConfigString/Bool/Int","generator.go")],(),["Data accessors","Generator config accessors"])
prop("C09","Generated files: no silent overwrite, exact content, sticky errors",
 "Writing a generated file never changes a file that already exists unless overwriting was requested, and otherwise leaves exactly the given content on disk or records an error. Text emitted between begin and end is returned exactly, in order, and once an error has been recorded nothing more is emitted.",
 ["inputs","fault_sequences"],"every path, content, sequence of emits, pre-existing file and write fault",NOT,
 ["generator.go"],[("Generator.WriteFile","generator.go"),("Generator.Begin, Emit, End","generator.go")],(),["the file system","Generator.Err","Generator.End"])
prop("C10","Formatted comments stay commented and lose no text",
 "Formatting a comment (with an indentation and a prefix free of line breaks) yields text that ends with a newline and in which every line starts with the indentation followed by the comment prefix; the empty lines added as padding carry the prefix without its trailing blanks. The words of the comment all appear, once each and in order; a comment that already contains line breaks keeps exactly those lines.",
 ["inputs"],"every indent, prefix, comment text, column limit and padding flag",NOT,
 ["misc.go","generator.go"],[("FormatComment","misc.go"),("Generator.FormatComment","generator.go")],(),["FormatComment result"])
prop("C11","Scalar text forms parse strictly and round-trip",
 "Parsing a UUID accepts exactly the 36-character texts with hyphens at the four standard positions and hexadecimal digits elsewhere, and returns them unchanged. Parsing a UnitValue splits at the first blank into a decimal number and a non-empty unit, and rejects everything else. Parsing the printed form of a UnitValue or Decimal gives a value that prints the same, and parsing the printed form of a Timestamp gives the same instant to the millisecond, in UTC; the JSON forms of all these are valid and are read back the same way.",
 ["inputs"],"every text and every value",
 "The tests parse and print a handful of literals; strictness and round-tripping are statements about all texts and values.",
 ["uuid.go","unitvalue.go","decimal.go","timestamp.go"],[("ParseUUID","uuid.go"),("ParseUnitValue, UnitValue.String","unitvalue.go"),("ParseDecimal, Decimal.String","decimal.go"),("ParseTimestamp, Timestamp.String","timestamp.go")],(),["Parse functions, String, MarshalJSON, UnmarshalJSON"])
prop("C12","OpenAPI export represents every type faithfully",
 "Every type of the model appears in the exported components under its name, with the OpenAPI type and format that correspond to its base type (Struct, Array, Map, String, Bool, Enum, UUID, Union, Timestamp and the numeric types; any other base type is an error) and with its comment, numeric bounds, size limits of strings, arrays and maps, pattern and allowed values carried over. A struct is exported with exactly its fields as properties, each with the schema of its own type (named types by reference), and exactly the required fields listed as required, in order; enums export exactly their symbols in order, unions exactly their variants, arrays and maps the schema of their item type.",
 ["inputs"],"every model whose types are exportable",NOT,
 ["openapi/export_openapi.go"],[("Generator.ExportToOAS3","openapi/export_openapi.go"),("exportTypeDef and the per-type exporters","openapi/export_openapi.go"),("oasSchema","openapi/export_openapi.go"),("oasNumericEquivalent","openapi/export_openapi.go")],(),["ExportToOAS3().Components.Schemas"])
prop("C13","OpenAPI export represents every HTTP action faithfully",
 "Every GET, PUT, POST, DELETE, HEAD, PATCH and OPTIONS action appears under its base-prefixed path without query string and its method, with its name, comment and tags; any other method and two actions with the same path and method are an error. Each input is exported in order as a path, query or header parameter under its wire name with its required flag (path parameters always required), or as the request body; the expected response (200 where an action declares none) and each exception appear under their status with their body, headers and description.",
 ["inputs"],"every model with any number of actions, inputs, outputs and exceptions",NOT,
 ["openapi/export_openapi.go"],[("Generator.ExportToOAS3","openapi/export_openapi.go"),("Generator.FindOperation","openapi/export_openapi.go")],(),["ExportToOAS3().Paths"])
prop("C14","OpenAPI import converts every schema faithfully",
 "Importing an OpenAPI schema yields the SADL type that corresponds to its type and format (number to Decimal, integer by format with Int64 as default, string to UUID, Timestamp or String, boolean to Bool, array to an Array of the referenced type or the item's base type, object to Struct), with pattern, size limits, numeric bounds and allowed values carried over; a string whose values are all symbols becomes an Enum of those symbols, in order. An object becomes a Struct with exactly one field per property, required exactly when listed as required, typed by the property's reference or inline schema. Enum values that are not strings are an error. A JSON or YAML document file is imported like its content, under its title if that is a symbol and under the name of the file otherwise; a missing, malformed or incomplete one (no version, title or paths) is an error.",
 ["inputs"],"every schema document of the supported kinds",NOT,
 ["openapi/import_openapi.go"],[("convertOasType","openapi/import_openapi.go"),("Model.ToSadl","openapi/import_openapi.go"),("oasTypeRef, containsString, validSadlName","openapi/import_openapi.go")],(),["ToSadl result"])
prop("C15","OpenAPI import converts every operation faithfully",
 "Importing an OpenAPI GET, PUT, POST, DELETE or HEAD operation yields an HTTP action with its id, method, summary, tags and path (query parameters appended as a query template), and one input per parameter, in order, bound to path, query or header under its wire name with its required flag and type; parameter names are reduced to identifiers, path placeholders alike, and PUT and POST take the JSON request body as an input. The success response (the one with the smallest 2xx or 3xx status, else the default response) becomes the expected result with its status, headers and body; every other response becomes an exception with its status, comment and type.",
 ["inputs"],"every operation document of the supported kinds",NOT,
 ["openapi/import_openapi.go"],[("convertOasPath","openapi/import_openapi.go"),("getPathOperation","openapi/import_openapi.go"),("makeIdentifier","openapi/import_openapi.go")],(),["ToSadl result"])
prop("C16","GraphQL export maps every type and field faithfully",
 "The GraphQL export declares each enum with exactly its symbols, each union with exactly its variants and each struct with exactly its fields, in order; a field is marked non-null exactly when it is required, and its type is the GraphQL scalar corresponding to its base type (or the configured custom scalar, which is then declared), a list of the GraphQL type of its items for arrays, or the referenced type's name. A type that GraphQL cannot express is an error.",
 ["inputs","configurations"],"every model of exportable types and every custom-scalar configuration",NOT,
 ["graphql/export_graphql.go"],[("FromSadl","graphql/export_graphql.go"),("GraphqlWriter.typeRef, scalarType, customScalar","graphql/export_graphql.go"),("EmitEnumDef, EmitStructDef, EmitUnionDef","graphql/export_graphql.go")],(),["FromSadl result"])
prop("C17","GraphQL import converts every definition faithfully",
 "Importing a GraphQL document yields one SADL type per object, enum and union definition (plus ID), in order, under its name and with its description; object fields keep their order, name and description, are required exactly when non-null, and have the SADL type of the named GraphQL type or an Array of the list's item type. Root operation types named by a preceding schema definition are left out, as are interface and input definitions; other unsupported definitions (scalars other than Timestamp and UUID, directives, nested lists) are an error.",
 ["inputs"],"every GraphQL document of the supported kinds",NOT,
 ["graphql/import_graphql.go"],[("gqlSchema, gqlStruct, gqlEnum, gqlUnion","graphql/import_graphql.go"),("convertTypeName, typeName, commentValue","graphql/import_graphql.go")],(),["Import result"])
prop("C18","Generated Go types mirror the model",
 "The Go type emitted for a type reference is the native type of its base type (string for UUID, []byte for Bytes, interface{} for Any and for unspecified items, the pointer to the runtime type for Decimal, Timestamp and UnitValue), a slice or map of the item and key types, or the referenced type's name (as a pointer for structs). A generated struct, including the request and response structs of actions, has exactly the model's fields, in order, each with its capitalised name, its Go type and a JSON tag carrying the original field name, with omitempty exactly when the field is optional; a generated enum has exactly the model's symbols in order with their names as text form; types used as exceptions implement error; every import that is needed is listed, exactly once.",
 ["inputs","configurations"],"every model of supported types, with and without the runtime option",NOT,
 ["golang/export_golang.go","golang/golang_model.go"],[("Generator.nativeTypeName","golang/export_golang.go"),("Generator.EmitStructType, EmitUnionType, EmitType","golang/golang_model.go"),("adjoin","golang/export_golang.go")],(),["generated model source"])
prop("C19","Generated Java types mirror the model",
 "The Java type chosen for a type reference is the primitive (when required) or boxed (when optional) type of a Bool or numeric base type, String, BigDecimal, UUID, Object for Any, byte[] for Bytes, Instant or Timestamp (by option) for timestamps, List or Map of the boxed item and key types, or the class of the referenced type, where named scalars, arrays and maps are replaced by what they stand for. Its annotations state exactly the declared pattern, size and bound constraints, with NotNull for required fields that are neither primitive nor a named array or map. Generated classes have exactly the model's fields in order, with constructor, getters or builder methods to match the configuration, inline structs become nested classes, exception classes extend RuntimeException; each import appears exactly once and every library type and annotation used is imported; packages map to directories and reversed domains component by component.",
 ["inputs","configurations"],"every model of supported types and every generator configuration",NOT,
 ["java/export_java.go","java/java_model.go"],[("Generator.TypeName, primitiveType","java/export_java.go"),("CreateStructPojo and helpers","java/export_java.go"),("AddImport","java/export_java.go"),("defaultPackage, reverseStrings, javaPackageToPath","java/export_java.go")],(),["TypeName","generated class source"])
prop("C20","HTTP example traces render the example request and response",
 "The rendered request carries the action's method, its path with every path and query placeholder replaced by the example's value as text (also for numbers and booleans), and one header line per header input; query parameters without a value are removed and all others are kept in order. The response carries the expected (or exception) status, its headers, and a Content-Length equal to the length of the rendered body.",
 ["inputs"],"every action, every set of request and response examples, every query string",NOT,
 ["httptrace/export_http_examples.go"],[("generateHttpTrace","httptrace/export_http_examples.go"),("stripMissingOptionalQueryParams","httptrace/export_http_examples.go"),("stringExample","httptrace/export_http_examples.go")],(),["Export output"])
prop("C21","Identifier and annotation helpers are exact",
 "A text is a symbol exactly when it starts with an ASCII letter and continues with ASCII letters, digits and underscores only. Capitalising or uncapitalising a valid UTF-8 text changes at most the case of the first character and nothing else; an annotation lookup returns the annotation's value, 'true' for a present annotation without value, and nothing for an absent one.",
 ["inputs"],"every text, annotation set and key",NOT,
 ["model.go","misc.go"],[("IsSymbol, IsSymbolChar","model.go"),("Capitalize, Uncapitalize, GetAnnotation, BaseFileName","misc.go")],(),["exported helpers"])
prop("C22","Parsing SADL source and unparsing it are inverse",
 "Every schema the parser accepts prints back to SADL source that parses to an equal schema, and ill-formed source is rejected with an error, never a crash.",
 ["programs"],"every SADL source text","The parser tests need the scanner module, which is absent here, and sample a few fragments.",
 ["parser.go","unparser.go"],[("Parser","parser.go"),("DecompileSadl","unparser.go")],(),["ParseSadlFile","Sadl"])
prop("C23","Smithy conversion preserves the model",
 "Converting a model to Smithy and back preserves its types, constraints and HTTP actions.",
 ["inputs"],"every model","The package cannot be compiled here; nothing tests it.",
 ["smithy/export_smithy.go","smithy/import_smithy.go"],[("FromSADL","smithy/export_smithy.go"),("Import","smithy/import_smithy.go")],(),["Smithy AST"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
