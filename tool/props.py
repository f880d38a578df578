#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tool/props.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


prop("C01", "Per-variant state is created, copied and dropped with the variants",
     "When a variant is cloned to new, recycled or overwritten targets, every per-variant value of every network element, of its terminals, tap changers and other parts, and of its extensions has in each target the value it has in the source variant, and no other variant changes. Removing a variant never loses or shifts the values of the remaining variants, and its slot may be reused. Elements created while several variants exist hold a value for each of them.",
     ["histories", "inputs"], "every sequence of variant creations, overwrites and removals, over every kind of element, part and extension",
     "The tests clone a few variants of a few element kinds in one order; the guarantee is per attribute and per history (recycling, several targets at once, removal of trailing slots).",
     ["src/iidm/VariantManager.cpp", "include/powsybl/iidm/VariantArray.hxx", "src/iidm/Connectable.cpp", "src/iidm/Terminal.cpp", "include/powsybl/iidm/TapChanger.hxx", "src/iidm/Generator.cpp", "src/iidm/extensions/SlackTerminal.cpp", "extensions/entsoe/src", "extensions/iidm/src"],
     [("variant array life cycle of each class", "extendVariantArraySize / reduceVariantArraySize / allocateVariantArrayElement / deleteVariantArrayElement"), ("allocation of slots", "src/iidm/VariantManager.cpp: cloneVariant, removeVariant")],
     "interprocedural effect analysis: per-variant fields x life-cycle operations completeness",
     "Decides, for every per-variant field and owned per-variant part of every concrete class, that each life-cycle operation grows/shrinks/copies it from the right slot with the right count, plus the slot bookkeeping of the variant manager. Objects reached only through unanalysed aliases are out of scope.")

prop("C02", "Per-variant attributes are read and written in the working variant only",
     "Reading a per-variant attribute of an element, terminal, bus, tap changer or extension gives the value of the current thread's working variant, and setting it changes that variant only. Selecting a variant, restoring a saved selection and removing the selected variant act on exactly the variant named; with multi-threaded access each thread has its own selection.",
     ["histories", "schedules"], "every accessor of every per-variant attribute, in every variant configuration and thread",
     "The tests read a handful of attributes in two variants; one accessor using a fixed or wrong slot goes unseen when all variants hold equal values.",
     ["include/powsybl/iidm/MultiVariantObject.hpp", "include/powsybl/iidm/VariantArray.hxx", "src/iidm/Generator.cpp", "src/iidm/ThreadLocalMultipleVariantContext.cpp", "src/iidm/MultipleVariantContext.cpp", "src/iidm/VariantContextGuard.cpp"],
     [("slot used by accessors", "getVariantIndex in every accessor"), ("contexts", "MultipleVariantContext, ThreadLocalMultipleVariantContext, VariantContextGuard")],
     "value-flow query: index of every per-variant access",
     "Decides the slot expression of every access to a per-variant field outside the variant life cycle, and the effect of the context operations.")

prop("C03", "A getter returns what the matching setter stored, and nothing else changed",
     "After an attribute of an element, tap changer, limit set or extension is successfully set, reading that attribute in the same variant returns exactly the value that was set. No other attribute of the object changes, apart from documented dependent ones.",
     ["inputs", "histories"], "every setter/getter pair of the model and of the extensions, every accepted value",
     "Tests set and read most attributes one at a time with convenient values; a setter that also writes, swaps or transforms another attribute passes them whenever the other one is not re-read.",
     ["src/iidm/Generator.cpp", "src/iidm/Battery.cpp", "include/powsybl/iidm/TapChanger.hxx", "src/iidm/DanglingLine.cpp", "src/iidm/Line.cpp", "extensions/entsoe/src", "extensions/iidm/src"],
     [("setter/getter pairs", "every class with setX/getX, isX or hasX members")],
     "interprocedural value-flow: composition of setter store with getter load",
     "Decides that the value returned by the getter is the location the setter stores the unmodified argument to, on all accepting paths, and lists every other store of the setter. Frozen table of documented dependent attributes.")

prop("C04", "A created object has exactly the attributes given to its builder",
     "After a builder's values are set and the object is created, each attribute read from the created object equals the value given (or the documented default when it was not given), in every variant, and creation returns the object that was just created. The object is attached where the builder says (voltage level, node or bus, side, owner) and nothing given is dropped or exchanged with another attribute.",
     ["inputs"], "every builder of the model and of the extensions, every accepted combination of values",
     "Tests build each kind once with distinct values for some attributes; same-typed attributes can be exchanged or dropped where the test uses equal or default values.",
     ["src/iidm/GeneratorAdder.cpp", "src/iidm/LineAdder.cpp", "src/iidm/TieLineAdder.cpp", "src/iidm/HvdcLineAdder.cpp", "src/iidm/DanglingLineAdder.cpp", "extensions/entsoe/src", "extensions/iidm/src"],
     [("builder chains", "XAdder::setY / withY, XAdder::add / createExtension, X constructor, X::getY")],
     "interprocedural value-flow: builder field -> constructor argument -> field -> getter",
     "Decides, for each builder setter with a same-named getter on the product, that the value reaches the location the getter reads.")

prop("C05", "Creation and later changes enforce the same rules, before anything is stored",
     "A value that is refused when an element, tap changer, limit or extension is created is also refused by the setter of that attribute, and a value refused by the setter is refused at creation. The rule is applied to the new value together with the current values of the other attributes, before the new value is stored, so a refused change leaves the old value readable.",
     ["inputs", "histories"], "every validated attribute, every value including NaN, negative and out-of-range ones, every prior state",
     "Tests try one bad value per attribute on one of the two paths; agreement between the paths and the order check-then-store quantify over all values and states.",
     ["src/iidm/ValidationUtils.cpp", "src/iidm/Generator.cpp", "src/iidm/GeneratorAdder.cpp", "src/iidm/RatioTapChanger.cpp", "src/iidm/PhaseTapChanger.cpp", "extensions/iidm/src", "extensions/entsoe/src"],
     [("validation functions", "src/iidm/ValidationUtils.cpp"), ("callers", "every setter, constructor and adder storing a validated attribute")],
     "sibling cross-check of interprocedural throw conditions (setter vs constructor/adder), check-before-store ordering",
     "Compares the normalised refusal conditions over each stored attribute on both paths; decides the order of check and store on every path of every setter.")

prop("C06", "Each validated attribute accepts and refuses exactly the documented values",
     "For each validated electrical attribute, exactly the documented class of values is refused at creation and by setters (undefined, negative, zero, above a maximum, minimum above maximum, or missing), whatever the element kind, and every other value is accepted. Conditional rules (a target needed only while regulation is on, a section count between zero and the maximum, a tap position within its range) refuse exactly when their condition holds.",
     ["inputs"], "all double values per attribute including NaN, infinities, zero and negatives, and all orderings of related attributes",
     "Tests sample one or two values per rule; boundary values (zero, equality, NaN in one of two operands) are not all sampled.",
     ["src/iidm/ValidationUtils.cpp", "include/powsybl/iidm/ValidationUtils.hpp"],
     [("refusal predicates", "check* functions of src/iidm/ValidationUtils.cpp and of the extensions")],
     "abstract evaluation of the refusal conditions over the sign/NaN/ordering domain against a per-attribute table",
     "The refusal condition of each validation function is extracted and evaluated over an exhaustive finite abstraction (NaN, negative, zero, positive; orderings between two operands) and compared with the documented domain.")

prop("C07", "A refused creation, attachment or removal leaves the network as it was",
     "When creating, attaching, removing or cloning something is refused (bad value, duplicate identifier, occupied node, unknown bus, object still in use), the network afterwards is the same as before: no new identifier is registered, no object or terminal is attached, no counter or table has changed. The same creation can be retried with corrected values.",
     ["inputs", "fault_sequences", "histories"], "every refusing path of every creation, attachment, removal and variant operation",
     "Tests check that the call throws; they rarely look at what the refused call left behind, and each operation has many refusing paths.",
     ["src/iidm/GeneratorAdder.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/HvdcLine.cpp", "src/iidm/VariantManager.cpp"],
     [("order of refusal and mutation", "XAdder::add, VoltageLevel::attach, NetworkIndex::checkAndAdd, VariantManager::cloneVariant")],
     "interprocedural effect ordering: no refusal reachable after the first mutation of shared state",
     "For each operation, lists the mutations of pre-existing objects and the throws reachable after them under compatible conditions. Known exceptions are listed as findings.")

prop("C08", "Topology views reflect every change of connectivity, in every variant",
     "After any change that can affect connectivity (a switch opened, closed or made retained, a terminal connected, disconnected, moved, attached or detached, equipment, buses, switches or internal connections added or removed), the next read of the bus views, of the connected and synchronous components and of the terminal's bus reflects the change, in every variant the change applies to. Reads between two changes give consistent answers.",
     ["histories"], "every interleaving of topology changes and cached reads over all variants",
     "Tests read the views after building; stale caches only show when a read precedes the change, per mutation kind and per variant.",
     ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/Switch.cpp", "src/iidm/BusTerminal.cpp", "src/iidm/Network.cpp", "src/iidm/AbstractComponentsManager.cpp", "src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/BusBreakerVoltageLevelTopology.cpp"],
     [("invalidation", "invalidateCache of the voltage levels and of the component managers")],
     "must-reach analysis: every mutation of connectivity state is followed by invalidation of every dependent cache",
     "Decides that each mutation of graph, bus, switch and terminal state reaches the invalidation of the view caches and component caches, for all variants when the mutation is variant-independent.")

prop("C09", "Removing something leaves no trace of it",
     "After an element, bus, switch, internal connection, voltage level, substation, HVDC line or extension is removed, no lookup, listing, view, terminal, owner or other element gives it back, and its identifier and aliases can be used again. Removal is refused when something still depends on it, and removing all of a kind while iterating removes every one of them.",
     ["histories"], "every removal operation, in every network state",
     "Tests remove one object and check one lookup; the references live in several tables and in other objects.",
     ["src/iidm/Connectable.cpp", "src/iidm/Substation.cpp", "src/iidm/VoltageLevel.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/HvdcLine.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/Extendable.cpp"],
     [("removal", "remove functions of each kind, NetworkIndex::remove, detach")],
     "registration/unregistration pairing over containers and back references; iterate-while-mutate check",
     "Every table or reference an object is entered in on creation must be cleaned on removal; a loop may not mutate the container it iterates.")

prop("C10", "Enumerations have complete, distinct names and every value is handled",
     "Converting an enumeration value to its name and back gives the same value, for every value of every enumeration: each has exactly one name and the names of one enumeration are distinct. Wherever behaviour depends on an enumeration or on the kind of element, every value or kind is handled or refused explicitly.",
     ["inputs", "programs"], "every value of every enumeration and every dispatch over them",
     "Tests print some values of some enumerations; adding, dropping or exchanging one name shifts others silently.",
     ["include/powsybl/iidm/Enum.hpp", "include/powsybl/iidm/Enum.hxx", "src/iidm/Country.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "extensions/entsoe/src", "extensions/iidm/src"],
     [("name tables", "getNames specialisations"), ("dispatch", "switch statements over enumerations and element kinds")],
     "table/enum agreement and switch exhaustiveness over the resolved program",
     "Compares each name table with its enumeration (count, order, uniqueness, spelling against the enumerator) and checks each switch.")

prop("C11", "What is written to XML is read back into the same property",
     "For every kind of element, limit, tap changer, step, curve, reference and extension, each value written under an attribute or element name on export is, on import, read under that same name and given to the same property of the rebuilt object, with the same type. An attribute that export may omit is optional on import with the omitted value as default, and every attribute export writes is read and used by import, except those that repeat what the document already says. A value that is present is written whatever the other values are, and is used on import whatever the others are.",
     ["inputs", "programs"], "every attribute of every serialised kind and extension, every value",
     "Round-trip tests cover reference files; attributes at their default, or equal to each other in those files, can be dropped or exchanged unseen.",
     ["src/iidm/converter/xml", "include/powsybl/iidm/converter/Constants.hpp", "extensions/entsoe/src", "extensions/iidm/src", "extensions/sld/src"],
     [("writers and readers", "XxxXml::writeRootElementAttributes / readRootElementAttributes / writeSubElements / readSubElements, XxxXmlSerializer::write / read")],
     "writer/reader agreement: resolved attribute name -> source property vs destination property",
     "Extracts both sides' (name, property, type, condition) tables by value flow and compares them.")

prop("C12", "Every schema version writes what the same version reads",
     "For each supported schema version, an attribute or element that exists from or until that version is written exactly when the reader of the same version reads it, and constructs that a version cannot represent are refused or reported on export and rejected on import. Version ranges use the same bounds on both sides.",
     ["configurations", "inputs"], "all supported versions x all version-dependent constructs",
     "Versioned reference files cover some constructs of some versions; off-by-one bounds on one side show only for one version and one construct.",
     ["src/iidm/converter/xml", "src/iidm/converter/xml/IidmXmlUtil.cpp", "src/iidm/converter/xml/IidmXmlVersion.cpp"],
     [("version gates", "runFromMinimumVersion, runUntilMaximumVersion, assertMinimumVersion, write...FromMinimumVersion")],
     "gate extraction on both sides and comparison over the finite set of versions",
     "Evaluates the version condition of each written and read construct over all versions.")

prop("C13", "Anonymised export hides every identifier and maps back exactly",
     "When export is anonymised, every identifier and name of an element, every alias, operator and geographical tag, and every reference to them, is replaced through one mapping, and import with the mapping's file restores the original everywhere, so references still resolve. Nothing is anonymised on one side and not on the other, two texts never get one replacement, and the mapping is written exactly when asked for. (The network's own identifier and source format, and the names of limits, feeders and properties stay readable.)",
     ["configurations", "inputs"], "every identifier-carrying attribute of every kind, with anonymisation on and off",
     "Tests compare anonymised output for one or two networks; attributes absent from them are not covered.",
     ["src/iidm/converter/xml", "src/iidm/converter/SimpleAnonymizer.cpp", "extensions/entsoe/src", "extensions/iidm/src"],
     [("mapping", "anonymizeString / deanonymizeString at each identifier attribute")],
     "taint analysis: identifier sources to written attributes through the anonymiser, attribute reads to model calls through its inverse; value-flow check of the mapping and of its file",
     "Decides for each written/read attribute whether it passes through the anonymiser on each side.")

prop("C14", "Malformed or truncated XML is refused, never misread or crashed on",
     "Import of a document that is not well formed, lacks a mandatory attribute, has a value of the wrong type, an unknown element or attribute value, fails with an error; it never crashes, loops or continues with a made-up value. Write errors of the underlying library are reported, and library resources are released on every path.",
     ["inputs", "fault_sequences"], "all documents and all points where the XML library can fail",
     "Tests feed a few malformed files; the obligation is per library call and per attribute.",
     ["src/xml/XmlStreamReader.cpp", "src/xml/XmlStreamWriter.cpp", "include/powsybl/xml/XmlStreamReader.hpp", "src/iidm/converter/xml/NetworkXml.cpp"],
     [("library calls", "src/xml/*.cpp"), ("mandatory attributes", "getAttributeValue")],
     "error-discipline and ownership analysis over libxml2 calls; null-flow of attribute reads",
     "Every libxml2 call's failure result is tested; returned buffers are owned; a missing attribute never reaches a dereference.")

prop("C15", "Every extension is wired under its own name, type and target",
     "Each extension kind is found, listed, serialised and rebuilt under one name and one type, the same in the extension itself, in its provider and in its serialiser, and each serialiser is registered and loadable. An extension can only be attached to the kinds of object it is meant for, and attaching, finding and removing it by type or by name agree.",
     ["configurations", "programs"], "every extension kind, its provider, serialiser and extendable type",
     "Tests load the extensions they know; a new or renamed one that is not registered, or registered under another's type, is not noticed.",
     ["src/iidm/Extendable.cpp", "src/iidm/ExtensionProviders.cpp", "extensions/entsoe/src/Entsoe.cpp", "extensions/iidm/src/Iidm.cpp", "extensions/sld/src/Sld.cpp"],
     [("registration", "extension provider libraries' lists"), ("names and types", "getName, getType, serialiser constructors")],
     "cross-check of name/type constants and registration tables",
     "Enumerates all extension classes and compares names, types, registration and assertExtendable.")

prop("C16", "A moved network is the same network",
     "After a network is moved, the destination holds everything the source held: all elements, identifiers, aliases, properties, extensions, variants with their working selection, and caches stay coherent; every element refers to the destination. Nothing keeps referring to the moved-from network.",
     ["histories"], "every network content and variant history before the move",
     "Networks are moved implicitly by every factory returning one, right after building, when variants, aliases and removed slots are absent.",
     ["src/iidm/Network.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/VariantManager.cpp", "include/powsybl/iidm/VariantArray.hxx", "src/iidm/Identifiable.cpp", "src/iidm/NetworkVariant.cpp"],
     [("move constructors", "Network(Network&&) and those of its parts")],
     "completeness of move constructors: every field transferred, every back reference rebased",
     "Every field of every class with a user-written move is transferred from the same field; back references are rebased.")

prop("C17", "Sides, legs and ends are never exchanged",
     "Everything asked for one side of a line, transformer, HVDC line or bus pair concerns that side: one-sided accessors agree with the side-indexed ones for each side, and creation, limits, terminals, export and import keep each side's data on its side. An undefined side or leg is refused.",
     ["inputs"], "every sided accessor of every sided element, each side",
     "Tests mostly use symmetric data or one side; an exchange of two sides is invisible with equal values.",
     ["src/iidm/Branch.cpp", "src/iidm/ThreeWindingsTransformer.cpp", "src/iidm/TieLine.cpp", "src/iidm/HvdcLine.cpp", "src/iidm/Line.cpp", "include/powsybl/iidm/BranchAdder.hxx"],
     [("sided accessors", "getX1/getX2/getX3 vs getX(side)")],
     "value-flow under side renaming: the summary of each sided function equals its sibling's with the sides exchanged",
     "Compares the symbolic results of sibling sided functions under the renaming 1<->2 (and legs 1->2->3).")

prop("C18", "Every import and export option is read, honoured and independent",
     "Each documented import or export option given as a parameter or set in code is read under its documented name and type, is stored in the option it names, and takes effect; when absent, the documented default applies. No option changes the effect of another.",
     ["configurations"], "every option and combination of options",
     "Tests set a few options; an option read under the wrong name or with the wrong default passes when tests use the defaults.",
     ["src/iidm/converter/ExportOptions.cpp", "src/iidm/converter/ImportOptions.cpp", "src/iidm/converter/ConversionParameters.cpp"],
     [("options", "constructors from properties, setters and getters")],
     "value-flow from parameter table to option field to getter to use",
     "Follows each option from its name to the field and to at least one use in the converter.")

prop("C19", "Shared mutable state is only touched under its lock",
     "State that several threads may reach by design (the table of variants, the registry of loggers, the caches that constant objects fill on first use) is only read and modified while the lock that guards it is held, and reading a constant object never changes unguarded state. No thread waits for a lock it already holds, and every lock is released on every exit, including by an exception.",
     ["schedules"], "every call path and thread interleaving",
     "The multi-threaded test runs one schedule.",
     ["src/iidm/VariantManager.cpp", "src/logging/LoggerFactory.cpp", "src/iidm/ThreadLocalMultipleVariantContext.cpp"],
     [("locks", "VariantManager::m_variantMutex, LoggerFactory::m_mutex, BusCache::m_mutex, UndirectedGraph::m_adjacencyListMutex")],
     "lockset analysis: guarded-by table and lock re-acquisition over the call graph",
     "Decides that every access to a guarded field is under a scoped lock of its mutex (in the function or in all its callers), that no call path re-acquires a held non-recursive mutex, that constant functions only change state under a lock, that the per-thread selection is thread-local, and that objects with static storage are constant or not changed after start-up. The registry of extension providers has no lock at all and is outside.")

prop("C20", "Constant and mutable access give the same objects",
     "Reading through a constant reference and through a mutable one gives the same object, value or refusal, for every accessor offered in both forms.",
     ["inputs"], "every accessor with a constant and a mutable form",
     "Tests usually call one of the two forms.",
     ["src/iidm/Network.cpp", "include/powsybl/iidm/VoltageLevel.hxx", "src/iidm/BusBreakerVoltageLevelViews.cpp", "src/iidm/NodeBreakerVoltageLevelViews.cpp"],
     [("overload pairs", "every pair of methods differing in const only")],
     "summary equivalence of const/non-const overload pairs",
     "Both overloads' interprocedural summaries (result, refusal conditions, filters) must be equal modulo constness.")

prop("C21", "Identifiers and aliases stay unique and resolve to one object",
     "At any time each identifier or alias designates at most one object of the network, lookups by identifier and by alias agree with the object's own identifier and alias lists, and adding an identifier or alias already in use is refused. Asking for an object of a kind by an identifier of another kind finds nothing.",
     ["histories", "inputs"], "every sequence of additions, alias changes and removals",
     "Tests add and remove single aliases; uniqueness across identifiers and aliases depends on the history.",
     ["src/iidm/NetworkIndex.cpp", "include/powsybl/iidm/NetworkIndex.hxx", "src/iidm/Identifiable.cpp"],
     [("index", "NetworkIndex: checkAndAdd, addAlias, removeAlias, remove, get, find")],
     "typestate of the index tables: every insertion dominated by the uniqueness test on both tables, paired updates",
     "Every update of the identifier, alias and kind tables is paired and guarded.")

prop("C22", "XML elements nest correctly on export and are all consumed on import",
     "On export every element that is started is ended on every path with the same nesting whatever the content; on import each reader consumes exactly its own element. Every child element that export can write under a parent is recognised by import under that parent, and an unrecognised child is refused.",
     ["inputs", "programs"], "every element kind and every optional content",
     "Round-trip tests contain few of the possible optional children per parent.",
     ["src/iidm/converter/xml", "extensions/entsoe/src", "extensions/iidm/src"],
     [("element structure", "writeStartElement/writeEndElement, readUntilEndElement in each converter")],
     "start/end balance on all paths; writer child names vs reader dispatch names and end element",
     "Balances start/end effects over structured paths and compares element-name tables of writers and readers.")

prop("C27", "Ranges and references handed out stay valid and can be used again",
     "What an accessor hands out (a reference, an optional reference, a lazy range of equipments, a predicate) refers only to objects that outlive the call: never to a local variable, a temporary, or an argument that may be one. Walking a returned range twice gives the same elements both times, and a reference to a part of a network object stays valid while the object grows.",
     ["inputs", "histories"], "every accessor that returns a reference or a lazy range, and every range used inside the library",
     "A dangling reference or a stateful filter often gives the expected result in a test: the stack has not been reused yet, or the range is walked only once.",
     ["src/iidm/Network.cpp", "src/iidm/Substation.cpp", "src/iidm/VoltageLevel.cpp", "include/powsybl/iidm/VoltageLevel.hxx", "extensions/iidm/src/Measurements.cpp", "extensions/iidm/src/DiscreteMeasurements.cpp", "src/iidm/util/TerminalFinder.cpp"],
     [("lazy ranges", "functions returning stdcxx::range / stdcxx::const_range, boost::adaptors uses"), ("references", "functions returning T&, stdcxx::Reference<T>")],
     "interprocedural lifetime (escape) analysis of returned references, ranges and closures; effect analysis of the function objects kept in ranges",
     "Computes what each returned reference or view refers to (this, parameter, local, temporary) through calls and captures, and refuses what ends with the call; function objects stored in ranges must not change their state.")

prop("C23", "A full export and import reproduces an equal network",
     "For every network, exporting then importing gives a network that is equal attribute by attribute, and exporting again gives the same bytes.",
     ["inputs"], "all networks", "Reference files only.",
     ["src/iidm/converter/xml/NetworkXml.cpp"], [("round trip", "NetworkXml::read, NetworkXml::write")], "", "",
     na="Equality of whole values over all networks, including number formatting and ordering, is a runtime quantity that no sound static argument in reach bounds; its structural necessary conditions are claimed separately (C11, C12, C13, C22).")

prop("C24", "Bus views and components equal the connectivity of the network",
     "The buses of each view and the connected and synchronous components are exactly the equivalence classes induced by closed, respectively non-retained, switches, internal connections and branches.",
     ["inputs", "histories"], "all topologies", "A few fixed topologies.",
     ["src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/BusBreakerVoltageLevelTopology.cpp", "include/powsybl/math/UndirectedGraph.hxx"], [("graph traversal", "NodeBreakerVoltageLevelTopology, BusBreakerVoltageLevelTopology, UndirectedGraph::traverse")], "", "",
     na="The result of a graph traversal over all graphs is a runtime quantity; deciding it needs functional verification of the traversal, not a structural rule. Cache coherence of the views is claimed in C08.")

prop("C25", "Derived electrical quantities are numerically correct",
     "State-variable propagation, current and limit-violation computations give the values of their formulas for all inputs.",
     ["inputs"], "all doubles", "A few sampled values.",
     ["src/iidm/util/SV.cpp", "src/iidm/util/LinkData.cpp", "src/iidm/util/Networks.cpp"], [("formulas", "SV, Networks")], "", "",
     na="Numerical results quantify over floating-point values; no static rule in reach decides them.")

prop("C26", "Concurrent readers and writers of different variants do not interfere",
     "Threads working on different variants of one network see only their own variant's values under every interleaving.",
     ["schedules"], "all schedules", "One schedule.",
     ["src/iidm/ThreadLocalMultipleVariantContext.cpp"], [("thread-local context", "ThreadLocalMultipleVariantContext")], "", "",
     na="Adjacent per-variant values share vectors (including bit-packed ones), so interference is a property of interleavings and memory layout that a structural rule cannot decide either way; the lock discipline it relies on is claimed in C19 and the slot discipline in C02.")


def main():
    claimed = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}}) + "\n")
    checks, na = [], []
    for x in P:
        rule = os.path.join(HERE, "sa", "rules", x["id"].lower() + ".py")
        if x["na"]:
            na.append({"property": x["id"], "reason": x["na"]})
        elif not os.path.exists(rule):
            na.append({"property": x["id"], "reason": "Static check designed (see DESIGN.md) but not built yet."})
        else:
            checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s --tier quick" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                           "technique": x["technique"], "level": "other", "level_note": x["note"]})
    m = {"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: facts are extracted from /repo's current sources with a libTooling extractor (tool/extract.cpp), rules are in sa/rules. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]


main()
