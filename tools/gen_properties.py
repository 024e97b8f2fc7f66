import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
M=["CIM14/","CIM15/"]
p("C01","Setting a to-one reference keeps both ends of the association in step",
 "For every to-one reference of every CIM class and profile, assigning an object or None makes the holder refer to exactly that value, takes the holder out of whatever it was linked to before (for a one-to-one association the assigned object's previous partner is released too), and makes the other end list or refer to the holder exactly once. No other link between any objects changes and the assignment never fails. Hence both ends agree after every history of assignments that starts from consistent objects.",
 ["inputs","histories"],"All to-one properties (960 many-to-one, 300 one-to-one, plus unidirectional ones) of all classes in CIM14, CIM15 and the 14 profiles; any consistent object graph of any size, any holder, any value including None, the current value and (in self-associations) the holder itself; any sequence of assignments.",
 "The suite assigns a handful of Terminal/BaseVoltage/Unit references once each on two or three fresh objects; 1260 setters, re-assignment, third parties and self-links are never reached.",
 M,[("to-one property setters","setX methods, e.g. CIM15/IEC61970/Core/Terminal.py setConductingEquipment"),("one-to-one property setters","e.g. CIM15/IEC61970/Core/Terminal.py setBushingInfo")],
 ["the to-one property","the inverse property of old and new partner"],[("_X / inverse list","private storage of each end","every class module")])
p("C02","Adding to and removing from a to-many reference keeps both ends in step",
 "For every to-many reference, adding any objects to a holder links each of them with the holder at both ends exactly once however often it is added, and where the inverse is to-one the object leaves its previous owner; removing linked objects unlinks them at both ends. No other link between any objects changes and neither operation fails. A to-many reference without an inverse lists each added object exactly once and no longer lists what is removed.",
 ["inputs","histories"],"All 1383 add/remove method pairs of all classes and profiles; any consistent graph, any holder, any finite argument list of objects of the reference's type (for remove: distinct linked objects); any sequence of operations.",
 "Tests call add/remove for two references with one or two objects; no test adds twice, adds an object owned by somebody else or checks both ends.",
 M,[("add methods","addX in every class with a to-many reference"),("remove methods","removeX in every class with a to-many reference")],
 ["the to-many property of the holder","the inverse property of every argument and of previous owners"])
p("C03","Assigning a list to a to-many reference replaces exactly its members",
 "Assigning any sequence of objects to a to-many reference makes its members exactly those objects, each once, linked at both ends; former members not in the sequence are unlinked at both ends and, where the inverse is to-one, each new member leaves its previous owner. The assigned sequence is neither changed nor kept as the holder's own list, no other link changes, and the assignment never fails.",
 ["inputs","histories"],"All 1364 list-valued property setters of bidirectional to-many references; any consistent graph, holder and finite sequence of objects of the reference's type, including repeats, current members, members of other holders and the empty sequence.",
 "Two tests assign one-element lists to empty references of fresh objects; replacement, overlap and stealing members are not exercised.",
 M,[("list property setters","setX of to-many references")],
 ["the to-many property","the inverse property of former, new and unrelated objects","the list object the caller passed"])
p("C04","Constructors store what is given, default the rest, and share nothing",
 "Every CIM class can be instantiated with any subset of its own and inherited attributes and references, and a UUID, as keyword arguments: each attribute given has the given value and every other attribute its declared default; each reference given is linked as by assignment, at both ends, and every other reference is None or an empty list. Two instances never share a mutable list.",
 ["inputs","configurations"],"All 1676 classes; every subset of keyword arguments and all values (references: objects of the declared type; classes that redeclare an inherited reference are listed as known findings).",
 "The tests instantiate about ten classes, with few arguments; 1660 constructors with on average 15 inherited parameters are never called.",
 M,[("__init__ chain","__init__ of every class up to CIM14/Element.py, CIM15/Element.py")],
 ["attributes and reference properties of the new instance","inverse properties of the references passed"])
p("C05","Class metadata agrees with the CIM models and with what instances offer",
 "For every class, the published attribute names, attribute types, defaults, enumeration types, references, to-many references and base class are those of the CIM model shipped with the repository. Every listed attribute exists on instances with a value of the listed type, every listed reference can be read and assigned, and every to-many reference has add and remove methods. Every class name in the class map of a CIM version or profile resolves to that version's or profile's class of that name.",
 ["configurations"],"All 1676 classes, 4755 attributes, 2828 references and 16 class maps; the oracle is the .ecore model set, condensed in spec/schema.json, plus the hand-made extension and compound classes the repository adds (these are Elements).",
 "No test compares a class with the model it was generated from; only a dozen classes are touched at all.",
 M+["Model/"],[("class tables","_attrs, _attr_types, _defaults, _enums, _refs, _many_refs of every class"),("packageMap","CIM14/__init__.py, CIM15/__init__.py and the profile packages")],
 ["class attributes","hasattr/getattr on instances","importing packageMap[name]"])
p("C06","Reading yields exactly one object of the right class per identified element",
 "Reading a CIM RDF/XML document returns a map with one entry for each identifier of an element of a known class (rdf:ID, or rdf:about without its '#') whose value is an instance of the class that element names in the selected version or profile and carries that identifier as UUID; there are no other new entries. When a start dictionary is given it is the map returned, its other entries are kept, and an rdf:about element describes the existing object instead of replacing it.",
 ["inputs"],"All well-formed CIM RDF/XML documents of any length and order, any class map, any start dictionary.",
 "Tests count the entries read from four fixed files; classes, identifiers and start dictionaries are not compared.",
 ["PyCIM/RDFXMLReader.py"],[("first pass","cimread, instantiation loop")],["the returned dictionary","type and UUID of its values"])
p("C07","Attribute and enumeration values are read with their declared type",
 "For every attribute element of a document, the addressed object's attribute ends with the element's text converted to the attribute's type (string, integer, float, or boolean from true/false in any letter case; an empty element of a string attribute is the empty string), and an enumeration element sets the literal named by its resource. Attributes not mentioned keep their values, and no other object's attributes change.",
 ["inputs"],"All attributes of all classes; all documents; all lexically valid texts; any position of the element in the document.",
 "Tests never look at an attribute value after reading.",
 ["PyCIM/RDFXMLReader.py"],[("second pass, attribute branch","cimread"),("enumeration branch","cimread")],["attributes of the returned objects"])
p("C08","References are linked at both ends whatever the order of the document",
 "For every reference element whose target is in the map, the two objects are linked at both ends as if assigned or added, whether the target's element comes earlier or later, whichever end or ends the document states, and however often it states it; a to-one reference that is already set is not overwritten. The reader creates no other links.",
 ["inputs","histories"],"All references of all classes (1260 to-one/to-many pairs, 402 many-to-many, 201 unidirectional); all documents whose references are consistent, all element orders.",
 "Tests read fixed files and never follow a reference; element order is never varied.",
 ["PyCIM/RDFXMLReader.py","CIM14/","CIM15/"],[("second pass, reference branch","cimread"),("property setters and add methods","class modules")],["reference properties of the returned objects"])
p("C09","CIM version, namespaces and profile are selected correctly for each read",
 "Without explicit arguments the reader takes the RDF namespace and the CIM version from the document's own declarations (CIM14 to CIM14 classes, CIM15 and CIM16 to CIM15 classes, anything else to CIM15 classes) and reads elements of the namespace declared; given a class map and namespace URI it uses exactly these, and giving only one of them raises ValueError. A path and a seekable stream positioned at its start give the same result, and the result never depends on earlier reads.",
 ["inputs","configurations","histories"],"All namespace maps, all combinations of the optional arguments, paths and seekable streams, any sequence of reads.",
 "Tests cover one version and two argument combinations, and independence of one pair of reads.",
 ["PyCIM/RDFXMLReader.py"],[("namespace detection","xmlns, get_rdf_ns, get_cim_ns"),("argument check and stream rewinding","cimread")],["returned objects' classes","ValueError","results of repeated reads"])
p("C10","Unknown and dangling content is skipped without affecting the rest",
 "Elements of unknown classes (with an identifier of their own) or of other namespaces, properties the class does not have, and references to objects not in the map never make a read fail. Everything else in the document is read exactly as if that content were absent.",
 ["inputs"],"All documents, with unknown content at any position and in any amount.",
 "The fixed test files contain a few unknown properties but their neighbours' values are never checked.",
 ["PyCIM/RDFXMLReader.py"],[("error branches of both passes","cimread: packageMap KeyError, missing object, hasattr test, missing reference")],["returned dictionary and objects","no exception"])
p("C11","XMLWriter output is well-formed and parses back to what was written",
 "Any balanced sequence of start, data, element, end and close calls produces well-formed XML whose parse has exactly the given tags, nesting, attributes (from dictionary and keywords together) and text, whatever markup or non-ASCII characters they contain. An end call naming another tag than the open one is refused. A comment call anywhere between (its text without two hyphens in a row) adds a well-formed comment holding its text and changes none of this, white space after it apart.",
 ["inputs","programs"],"All balanced call sequences of any depth and length; all XML-legal text without carriage returns, all attribute values without line breaks and tabs; path and text-stream outputs.",
 "No test exercises XMLWriter directly; the writer test only serialises plain ASCII values and never parses the result.",
 ["PyCIM/SimpleXMLWriter.py"],[("escaping","escape_cdata, escape_attrib"),("tag stack","XMLWriter.start, end, close, element, data, comment")],["the output, parsed with an independent XML parser"],
 [("open flag, tag stack, data buffer","writer state","PyCIM/SimpleXMLWriter.py XMLWriter")])
p("C12","Serialising writes exactly the set values of every object and changes none",
 "Serialising a map writes one element per object, with its class name and UUID, holding exactly one property element for each attribute that differs from its default (its text is the value), each enumeration attribute that is set (resource is the literal of its enumeration type) and each to-one reference that is set (resource is the target's '#UUID'), over all inheritance levels, named after the declaring class; nothing else is written. The objects are not modified, and the document declares the namespace of the objects' CIM version.",
 ["inputs"],"All maps of objects of all classes with any attribute values of the declared types and any consistent references.",
 "The one test serialises one file's objects and checks nothing about the content.",
 ["PyCIM/RDFXMLWriter.py","PyCIM/SimpleXMLWriter.py"],[("cimwrite loops","cimwrite: attributes, enumerations, references over the class hierarchy"),("namespace choice","get_cim_uri")],["the document written","the objects after the call"])
p("C13","Writing a model and reading it back reproduces it",
 "Reading what was serialised from a map of objects, with the same class map, gives a map with the same identifiers whose objects have the same classes, equal attribute and enumeration values of the same types, and the same links for every association that has a to-one end.",
 ["inputs","histories"],"All maps keyed by UUID, closed under to-one references, of objects of all CIM14 and CIM15 classes and profiles; attribute values of declared type with XML-legal text without carriage returns, floats other than NaN. Many-to-many links are not serialised (documented in the code) and are outside.",
 "The writer test never reads its output back.",
 ["PyCIM/RDFXMLWriter.py","PyCIM/RDFXMLReader.py","PyCIM/SimpleXMLWriter.py"],[("inverse conversions","cimwrite str()/resource, cimread type conversion")],["cimread(cimwrite(d)) compared with d"])
p("C14","Pretty printing changes only insignificant white space",
 "Pretty printing a document gives a well-formed document with the same elements in the same order and nesting, the same attributes and the same text; only blank text (white space alone) between elements may be added or replaced.",
 ["inputs"],"All XML documents: any depth within Python's recursion limit, any mixture of text, tails, attributes and namespaces.",
 "No test covers the pretty printer.",
 ["PyCIM/PrettyPrintXML.py"],[("indent recursion","indent"),("entry point","xmlpp")],["the returned document, parsed"])
p("C15","A CIM15 line segment has one impedance model behind consistent views",
 "An AC line segment holds at most one per-length impedance: its sequence view shows it exactly when it is a sequence impedance, its phase view exactly when it is a phase impedance, and the impedance lists the segment exactly when the segment holds it. Assigning through any view replaces the model held, and constructing a segment with more than one model raises ValueError.",
 ["inputs","histories"],"All histories of assignments through the three references and through the impedances' own segment lists, all constructor argument combinations.",
 "Five tests cover single assignments on fresh objects; replacement of one kind by the other and the inverse lists are not covered.",
 ["CIM15/IEC61970/Wires/ACLineSegment.py","CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py","CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py"],[("derived views","ACLineSegment.getSequenceImpedance, getPhaseImpedance and their setters")],["the three references of the segment and LineSegments of the impedances"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
