prop(
    "P01",
    "Every reported fact can be found again, exactly once",
    "Every fact of an opened XBRL or inline XBRL filing whose element is a declared concept and whose context exists is returned exactly once by the filing's fact listing, with its concept, its id and its text. Selecting facts by concept (object, QName or QName string) returns all facts of that concept and no others, the reported concepts are exactly those that have facts, and the core facts are exactly those without dimensions. A fact whose element is unknown or abstract or whose context is missing is not returned and is reported by one error, and nothing else is reported.",
    ["inputs"],
    "all instance documents with up to 4 facts over known, abstract and undeclared elements, existing and missing contexts, with and without ids, in XML, inline body, nested and hidden positions",
    "The tests open three fixed sample filings and count facts; they never see facts without ids, facts sharing concepts or contexts in other combinations, or invalid facts mixed with valid ones.",
    ["brel/parsers/XML/xml_facts_parser.py", "brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/data/fact/in_memory_fact_repository.py", "brel/brel_filing.py"],
    [("fact parsing loop", "brel/parsers/XML/xml_facts_parser.py:parse_facts_xml"), ("inline fact parsing", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("fact store", "brel/data/fact/in_memory_fact_repository.py:InMemoryFactRepository"), ("selection", "brel/brel_filing.py:Filing.get_facts_by_concept")],
    "up to 3 (quick) or 4 (thorough) facts over 4 element names, 3 context references, optional ids, 1-2 symbolic value characters; one instance document",
)
prop(
    "P03",
    "Inline numeric facts have the displayed number, scaled and signed",
    "For an inline numeric fact the reported value is the number displayed, by the innermost fact where facts are nested, under the declared transformation format (decimal and group separators, major and minor units, fixed zero), multiplied by ten to the declared scale and negated when the sign attribute says so, computed exactly for every magnitude. Text that the declared format does not admit is reported as an error and never turned into a number. The decimals and precision are kept, malformed numeric attributes are reported and otherwise ignored, breaches of the rules of nesting are reported, and a nil fact has no number.",
    ["inputs"],
    "all digit strings up to 6 digits with every mixture of group separators, scales, signs and formats of the registry, and all rejected texts up to the stated length",
    "The tests open two inline sample filings and look at a handful of values; the transformation regexes, the scaling arithmetic and the rejection branches are quantified over all numerals.",
    ["brel/parsers/XHMTL/elements/parse_non_fraction.py", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
    [("transformation registry", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"), ("scale and sign", "brel/parsers/XHMTL/elements/parse_non_fraction.py")],
    "numerals up to 6 digits with up to 3 fraction digits, scales -9..9 (more in thorough), 13 decimal formats, 4 unit formats, 3 zero formats; rejected text up to 3 characters over a confusable alphabet",
)
prop(
    "P02",
    "XML facts keep their text, accuracy and typed value",
    "Every valid fact of an XML instance is returned with exactly the text of its element, its id, and its decimals and precision as numbers (INF included), and converting it to a number, integer, boolean or string by the type of its concept gives the value the text denotes. A malformed decimals or precision attribute, an unknown unit, and a missing value of a concept that is not nillable are each reported, and never invent a value. Facts are independent: nothing of one fact changes another.",
    ["inputs"],
    "all texts over a confusable alphabet up to the stated length, all integer and INF accuracies with signs and leading zeros, all rejected accuracies up to the stated length, all concept types",
    "The tests open three fixed filings whose facts all have ordinary values and never read accuracy attributes, boolean values or malformed attributes.",
    ["brel/parsers/XML/xml_facts_parser.py", "brel/brel_fact.py"],
    [("fact parsing", "brel/parsers/XML/xml_facts_parser.py:parse_fact_from_xml"), ("typed values", "brel/brel_fact.py:Fact.get_value_as_bool")],
    "texts up to 3 characters, accuracies up to 3-4 characters, up to 3 facts",
)
prop(
    "P06",
    "The period of a fact is exactly the one its context states",
    "For every valid xs:date or xs:dateTime the period of a fact is exactly the instant, or the start and end, of its context, and each fact has the period of its own context. Missing, malformed, contradictory or reversed dates are reported and give no period. Two periods are equal exactly when they are of the same kind with the same dates.",
    ["inputs"],
    "all dates of years 1 to 9999 in both kinds of period including leap days and month ends, all times of day, and all malformed texts near a date up to the stated number of free characters",
    "The tests open sample filings with a handful of ordinary dates; leap years, times, reversed periods and malformed dates never occur.",
    ["brel/parsers/XML/characteristics/xml_parse_period.py", "brel/characteristics/period_characteristic.py"],
    [("period parsing", "brel/parsers/XML/characteristics/xml_parse_period.py"), ("period values", "brel/characteristics/period_characteristic.py:PeriodCharacteristic")],
    "eight free date digits, times with free digits, up to 3 facts with different contexts, malformed texts with up to 3 free characters at any position",
)
prop(
    "P07",
    "A fact has exactly the entity, unit and dimensions of its context and unit",
    "A fact has the entity, the unit as the quotient of its measures, and the explicit and typed dimensions, in segment or scenario, that its own context and unit state: no more, no less, and nothing leaks between facts that share or do not share contexts and units. Entities, and the values of a dimension, are equal exactly when their identifiers, members or values are. Malformed or unknown entities, units and dimensions are reported and never attached to a fact.",
    ["inputs"],
    "all identifiers and schemes up to the stated length, all units of up to 4 measures, all assignments of members and values to two explicit and one typed dimension in segment or scenario, all listed malformed parts",
    "The tests open fixed filings with one entity and simple units; scenario dimensions, shared contexts with different units, divided units and malformed parts never occur.",
    ["brel/parsers/XML/xml_context_parser.py", "brel/parsers/XML/characteristics/xml_parse_unit.py", "brel/parsers/XML/characteristics/xml_parse_entity.py", "brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py", "brel/parsers/XML/characteristics/xml_parse_typed_dimension.py", "brel/parsers/XHMTL/xhtml_parse_facts.py"],
    [("context parsing", "brel/parsers/XML/xml_context_parser.py:parse_context_xml"), ("unit parsing", "brel/parsers/XML/characteristics/xml_parse_unit.py"), ("context", "brel/brel_context.py:Context")],
    "up to 3 facts over up to 3 contexts and 2 units, identifiers of up to 2 free characters, 3 dimensions, 9 kinds of malformed units, 10 of malformed dimensions; one instance document, or two with the same ids and a prefix of two meanings",
)
prop(
    "P08",
    "A qualified name means its namespace and its local name",
    "A name written prefix:local means the namespace its prefix has in the innermost enclosing element that binds it, a name without prefix the default namespace, an unbound prefix no namespace of the document, and Clark notation the namespace it states. Names are equal, and hash and act as keys alike, exactly when namespace and local name agree, whatever their prefixes. A name prints as prefix:local (as local without a prefix) and in Clark notation reads back as the same name.",
    ["inputs"],
    "all prefixes, local names and namespaces up to the stated lengths, all rebindings of prefixes in nested elements, all sets of up to 4 names used as keys",
    "The tests parse names of fixed filings in which every prefix has one meaning; rebinding, default namespaces and equal names with different prefixes never occur.",
    ["brel/qnames/qname.py", "brel/qnames/qname_utils.py"],
    [("name resolution", "brel/qnames/qname_utils.py:qname_from_str"), ("name", "brel/qnames/qname.py:QName")],
    "prefixes up to 2 (thorough 3) characters, local names and namespaces with up to 2 (3) free characters, two nested scopes, 2-4 names",
)
prop(
    "P22",
    "Searching report elements by name finds exactly the named element",
    "Searching a filing for a report element or concept by prefix:local, Clark notation, QName or bare local name finds the declared element of that name, with its id and kind, whichever prefix of the namespace is used. An undeclared or ambiguous name finds nothing rather than some other element, and an element that is not a concept is not found as one. The listings by kind (concepts, abstracts, hypercubes, dimensions, members, line items) hold each element of the filing exactly once, in its own kind.",
    ["inputs"],
    "all names up to the stated lengths in all notations over 1-3 namespaces of three elements, all assignments of kinds to elements",
    "The tests look up a few existing names of fixed filings; names of several namespaces, ambiguous names, Clark notation and missing names are never tried.",
    ["brel/data/report_element/in_memory_report_element_repository.py", "brel/brel_filing.py"],
    [("lookup by name", "brel/brel_filing.py:Filing.get_report_element_by_name"), ("report element store", "brel/data/report_element/in_memory_report_element_repository.py")],
    "1-3 namespaces of 3 elements, local names of up to 3 free characters, 2-3 elements of any of 5 kinds",
)
prop(
    "P12",
    "Taxonomy elements are read as the report elements they declare",
    "Every element that a taxonomy schema of the filing declares in a standard substitution group (item, hypercubeItem, dimensionItem) is read as exactly one hypercube, dimension, member, abstract, line items or concept, as it declares, with the namespace, name and id of its first declaration; tuples and plain elements give none. A concept has the declared period type, balance, nillability and data type, with the numeric, integer, boolean and textual predicates of that type, and a dimension is typed, by the type of its domain element, exactly when its typedDomainRef leads to one. A concept with a malformed attribute, or a domain that is not found, is reported by one error and leaves the other elements unaffected.",
    ["inputs"],
    "all combinations of kind, spelling of booleans, period type, balance, nillability; all malformed attribute texts up to the stated length; 56 item types under any prefix; all placements of a typed domain",
    "The tests count the elements of three fixed taxonomies; abstract or nillable written as 1, malformed attributes, equal names in several schemas and typed domains in other folders never occur.",
    ["brel/parsers/XML/xml_report_element_parser.py", "brel/parsers/XML/xml_report_element_factory.py", "brel/reportelements/concept.py"],
    [("classification", "brel/parsers/XML/xml_report_element_factory.py:XMLReportElementFactory.create"), ("concept attributes", "brel/reportelements/concept.py:Concept._from_xml"), ("typed dimensions", "brel/parsers/XML/xml_report_element_parser.py:parse_report_element")],
    "1-3 declarations in 1-3 schemas, names of 1-3 free characters, malformed texts of up to 3 free characters",
)
prop(
    "P09",
    "A network has exactly the relationships of its extended link",
    "For every presentation, calculation and definition link, the network has the elements no arc leads to as roots and below each node exactly one child for each arc that leaves it, with the element, arc role, order, and weight or preferred label of that arc, children sorted by order. A definition link also gives one physical network for each arc role, made of the arcs of that role only, and links of different roles or kinds never mix. Duplicate arcs, locators without an element, links without a role and unsupported links are reported once each and leave everything else intact.",
    ["inputs"],
    "all acyclic graphs of the stated numbers of arcs and locators, all orders with one digit, halves and signs, all arc roles, weights, preferred labels, shared labels, both placements of locators and arcs",
    "The tests count the networks of fixed filings and look at one hand-made network; they never vary the shape, the orders or the arc roles of a link.",
    ["brel/parsers/XML/networks/xml_extended_link_parser.py", "brel/parsers/XML/networks/xml_presentation_network_factory.py", "brel/parsers/XML/networks/xml_calculation_network_factory.py", "brel/parsers/XML/networks/xml_definition_network_factory.py", "brel/networks/i_network.py"],
    [("network construction", "brel/parsers/XML/networks/xml_extended_link_parser.py:parse_xml_link"), ("nodes of arcs", "brel/parsers/XML/networks/xml_presentation_network_factory.py:PresentationNetworkFactory.create_node"), ("sorted children", "brel/networks/definition_network_node.py:DefinitionNetworkNode._add_child")],
    "2-3 (thorough 4) arcs over 3-5 locators of distinct elements, no directed cycles, no prohibited arcs, 2-3 arc roles, the prefix xlink",
)
prop(
    "P11",
    "The extended links of a role make one network, in whatever order",
    "The presentation, calculation and definition relationships that a role states in several extended links and documents make one network of each kind, which has every relationship exactly once, with its order and weight, whatever the order of the links and documents. Its roots are exactly the elements that no relationship of the role leads to, and children are ordered across links. Relationships of another role do not take part.",
    ["orders", "inputs"],
    "all forests over 3-4 elements dealt out to 2-3 links in all permutations, in one or two documents, with symbolic orders",
    "The tests open filings in which each role has its links in one fixed order.",
    ["brel/parsers/utils/network_utils.py", "brel/parsers/XML/networks/xml_networks_parser.py"],
    [("combination", "brel/parsers/utils/network_utils.py:combine_networks"), ("grouping by role", "brel/parsers/XML/networks/xml_networks_parser.py:parse_networks_from_xmls")],
    "3-4 elements with at most one parent each, 2-3 links, 2 documents; siblings of equal order may come in any order",
)
prop(
    "P10",
    "Calculation checks say whether totals are the sums of their parts",
    "A calculation network is aggregation consistent for given facts exactly when every reported total, in each period, entity, unit and set of dimensions, equals the exact weighted sum of the facts of its children with the same characteristics. When no total is wrong but a contribution is missing or ambiguous, the check raises ValueError and never answers. A network is balance consistent exactly when every concept in it has a balance and every weight is positive between equal and negative between different balances.",
    ["inputs"],
    "all numbers of the stated digits with signs and fractions, all weights listed, six network shapes, all assignments of facts to contexts and units, all balances",
    "The tests evaluate two fixed networks with integer facts without period, entity, unit or dimensions; they never have several contexts, fractions, missing or repeated facts.",
    ["brel/networks/calculation_network.py", "brel/characteristics/unit_characteristic.py"],
    [("aggregation", "brel/networks/calculation_network.py:CalculationNetwork.is_aggregation_consistent"), ("balance", "brel/networks/calculation_network.py:CalculationNetwork.is_balance_consistent")],
    "networks of 2-4 concepts, up to 5 facts, numbers up to 4 (thorough 6) digits with one fraction digit, no rounding to decimals, no nil facts, no directed cycles",
)
prop(
    "P04",
    "Inline dates and fixed values mean what is displayed",
    "A date displayed in an inline text fact under a date format of the transformation registries (numeric, month names of 25 languages, roman, Japanese eras, Indian national calendar, names of earlier registries) is reported as that date: yyyy-mm-dd, yyyy-mm or --mm-dd. A date or month that does not exist, or a text that is no date of the format, is reported as an error and no date is made up. The formats for fixed values give their value whatever the text, and unknown formats are reported and leave the text.",
    ["inputs"],
    "all days and years of 1-4 digits with every month name and abbreviation of the registry in every order and separator of the format, all texts up to the stated length for the numeric formats",
    "The tests transform no date; a registry of some hundred names in 25 languages has one month wrong without anybody noticing.",
    ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
    [("dates", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py:parse_non_numerical_fact_value"), ("use on facts", "brel/parsers/XHMTL/elements/parse_non_numeric.py")],
    "days and months of 1-2 digits, years of 1-4 digits, texts of up to 5 (thorough 8) characters; the standard prefix ixt",
)
prop(
    "P05",
    "Inline text facts have exactly their displayed text",
    "For an inline text fact without a transformation format the reported value is the text of the fact and of everything in it, in document order, followed by that of its continuations in the order of the chain wherever they stand, without excluded parts; every character is kept. With escape it is the mark-up of that content, each special character of text escaped exactly once. Malformed escape attributes and continuations that are missing, unused, used twice, nested in the text they continue, or without a unique id are each reported, and nothing else is; a cyclic chain ends.",
    ["inputs"],
    "all contents of up to 3 children of 10 kinds with arbitrary characters, all chains over the stated numbers of facts and continuations in one or two documents, all placements and ids, all values of the escape attribute",
    "The tests open inline sample filings without looking at texts; continuations, exclusions, nesting and escaping interact and every character must survive.",
    ["brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/elements/parse_continuation_chain.py"],
    [("escaping and text", "brel/parsers/XHMTL/elements/parse_non_numeric.py"), ("continuations", "brel/parsers/XHMTL/elements/parse_continuation_chain.py")],
    "3 children, texts and tails of one character (four without mark-up), 2 facts and 3 continuations or 1 fact and 4 continuations, 2 documents",
)
prop(
    "P13",
    "Components are the declared roles with the networks of these roles",
    "Every role that a schema of the filing declares is exactly one component, with the URI and the definition of the role and exactly the presentation, calculation and definition networks of this role, however many schemas declare it and whatever prefix the linkbase namespace has. A network of a kind that the role is not declared to be used on is reported, and nothing else is. A component is found by its URI, and a role that is not declared has none.",
    ["inputs"],
    "all roles with free characters in their URIs and definitions, all combinations of uses and networks, all placements of role declarations and links in documents",
    "The tests compare the number of components of fixed filings; roles in several schemas, other prefixes, missing uses and definitions never vary.",
    ["brel/parsers/XML/xml_component_parser.py", "brel/data/component/in_memory_component_repository.py", "brel/brel_component.py"],
    [("role declarations", "brel/parsers/XML/xml_component_parser.py:parse_component_from_xml"), ("component", "brel/brel_component.py:Component")],
    "1-3 roles in 2 schemas, 0-3 links, texts of up to 2 free characters; declarations of one role are alike",
)
prop(
    "P14",
    "Labels and references belong to the elements their arcs name",
    "A report element has exactly the labels that label arcs lead to from it, in the order of the links, each with its text whatever mark-up it has, its role, and the language of the nearest element around it; labels without a language are reported. The main label is an English one if there is one, and for preferred languages the first label in the most preferred language that has one is chosen. References have the parts written in them, below exactly the elements whose arcs lead to them, and irregular links leave other labels intact.",
    ["inputs"],
    "all label graphs of the stated size with shared labels of locators and resources, all texts, languages and roles, eight irregular links, all lists of preferred languages",
    "The tests print a few labels of fixed filings; shared labels, inherited languages, mark-up and orphan labels never occur.",
    ["brel/parsers/XML/networks/xml_label_network_factory.py", "brel/parsers/XML/networks/xml_resource_parser.py", "brel/parsers/XML/networks/xml_reference_network_factory.py", "brel/services/translation/translation_service.py", "brel/reportelements/i_report_element.py"],
    [("labels of elements", "brel/parsers/XML/networks/xml_label_network_factory.py:LabelNetworkFactory.update_report_elements"), ("resources", "brel/parsers/XML/networks/xml_resource_parser.py"), ("choice", "brel/services/translation/translation_service.py:TranslationService.get_from_labels")],
    "2-3 elements, 1-3 resources, 1-3 arcs, 1-2 links, texts of up to 2 free characters, up to 3 labels in ten languages",
)
prop(
    "P16",
    "The documents of a filing are those its references lead to",
    "A filing consists of its entry documents and every document that references (schemaRef, linkbaseRef, import, include, locators, xsi:schemaLocation) lead to from there, resolved against the document they stand in, each once whatever way leads to it; text that merely looks like a reference is none. The catalog of the package (the outermost, if there are several) replaces the longest fitting start of a URI, and what it maps into the package is not fetched. Remote documents that are unavailable are reported and leave the others, and incomplete or ambiguous rules of a catalog are reported.",
    ["inputs"],
    "all reference graphs of the stated size over local folders and the web in six spellings, all relative references of the stated length, all catalogs of the stated size, all missing documents",
    "The tests open filings with a fixed layout; relative paths through several folders, cycles, catalogs and unavailable documents never occur.",
    ["brel/services/xml/xml_service.py", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py", "brel/parsers/XML/xml_parse_catalog.py", "brel/contexts/factory.py", "brel/services/file/file_service.py"],
    [("discovery", "brel/services/xml/xml_service.py:XMLService.add_etree_recursive"), ("catalog", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py:InMemoryURIRewriteRepository.rewrite")],
    "2-4 documents, 1-3 references, relative references of up to 6 free characters, 2-3 rules of a catalog; paths with slashes",
)
prop(
    "P17",
    "The cache serves each remote document as it was fetched",
    "A document of the web is fetched the first time a filing needs it and from then on served from the cache, byte for byte, in this and later filings; a failed request is reported and leaves no entry, and a program that stops at any moment leaves no part of a document. Documents with different URIs never share an entry, whatever characters the URIs have. Local documents are read as they are when the filing is opened, also if a document of the same name in another folder was read before.",
    ["inputs", "histories", "crash points"],
    "all pairs of URIs with the stated free characters, all histories of requests of the stated length with failures, all points at which the program may stop while it writes, filings opened one after another with changes in between",
    "The tests clear or reuse a cache without looking at it; they never have two URIs that differ in a separator only, changed files or failed requests.",
    ["brel/data/file/pyfs_file_repository.py", "brel/parsers/utils/file_utils.py", "brel/services/file/file_service.py", "brel/services/xml/xml_service.py"],
    [("names of entries", "brel/parsers/utils/file_utils.py:uri_to_filename"), ("entries", "brel/data/file/pyfs_file_repository.py:PyFsFileRepository"), ("requests", "brel/services/file/file_service.py:FileService.download_and_add_file")],
    "2-3 URIs of up to 3 free characters, 4-6 requests, 2-3 filings; URIs that fit into a file name",
)
prop(
    "P18",
    "A filing is the same wherever it is opened from",
    "A filing has the same facts and the same report elements whether it is opened from a file, a folder, a zip file or a link, as XML or inline XBRL with any of the supported endings, at the top or in subfolders. Exactly the files of a folder or zip file whose names have a supported ending take part, in an order that does not depend on the file system, and what cannot be opened is refused with ValueError. Extracting a zip file writes nothing outside of its own folder.",
    ["inputs", "environment"],
    "all filings of 1-2 instances with free text in seven places, all folders of the stated size with free names, all orders of listing, hostile zip files",
    "The tests open a few fixed paths and most of them need the network; no test opens a zip file or an .htm file.",
    ["brel/parsers/path_loaders/file_path_loader.py", "brel/parsers/path_loaders/folder_path_loader.py", "brel/parsers/path_loaders/zip_path_loader.py", "brel/parsers/filing_parser_factory.py", "brel/brel_filing.py"],
    [("paths", "brel/parsers/path_loaders/path_loader_resolver.py:PathLoaderResolver.get_path_loader"), ("folders", "brel/parsers/path_loaders/folder_path_loader.py:FolderPathLoader.load"), ("zip files", "brel/parsers/path_loaders/zip_path_loader.py:ZipPathLoader.load")],
    "1-2 instances with texts of up to 2 digits, 2-3 files with up to 3 free characters in two folders, five hostile names",
)
prop(
    "P15",
    "Problems of a filing are reported with code, message and place",
    "For each of some eighty kinds of problems in instances, inline documents, taxonomies and linkbases, wherever it occurs among good content, exactly this problem is reported, with its code, with a message in which the values stand as they are written and where the message says what they are, and with the element it is about. Every code has a message, no two share area and number, and a message is never shown with a gap. The lists of all errors, of errors, warnings, notes, and of a severity or an area have exactly the reported problems of that kind in the order of their report.",
    ["inputs"],
    "all texts and ids of the stated length, braces among them, for every placeholder of every code; all documents of the stated kinds with one problem; all sequences of errors of every severity and area",
    "The tests never look at a reported problem; that values are not swapped, that nothing else is reported and that the element is the right one must hold for every document.",
    ["brel/errors/error_code.py", "brel/data/errors/in_memory_error_repository.py", "brel/brel_filing.py", "brel/errors/error_factory_registry.py"],
    [("messages", "brel/errors/error_factory_registry.py"), ("store of errors", "brel/data/errors/in_memory_error_repository.py"), ("selection", "brel/brel_filing.py:Filing.get_errors_by_severity")],
    "every code; one problem in a document; texts with up to 2 (thorough 4) free characters; up to 3 errors",
)
prop(
    "P19",
    "Footnotes are attached to exactly the facts they are given for",
    "In inline documents and XML instances every footnote is below exactly the facts that relationships or arcs attach it to, in their order, in a network with their link role and arc role, wherever the parts stand. It has its own text with continuations and without exclusions, its role, its title and the language of the nearest element. A relationship or footnote with a mistake is reported and leaves the others intact.",
    ["inputs"],
    "all acyclic relationships of the stated numbers of facts, footnotes and relationships, with orders, arc roles and link roles; all texts of the stated length; seven mistakes with free ids",
    "No test opens a filing with footnotes and looks at them.",
    ["brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py", "brel/parsers/XHMTL/networks/xhtml_footnote_network_elements.py", "brel/parsers/XML/networks/xml_footnote_network_factory.py", "brel/networks/footnote_network.py"],
    [("inline footnotes", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py"), ("XML footnotes", "brel/parsers/XML/networks/xml_footnote_network_factory.py"), ("network", "brel/networks/footnote_network.py")],
    "2-3 facts, 1-2 footnotes, 2-3 relationships with up to two items on each side, texts of up to 2-4 free characters; no cycles",
)
prop(
    "P20",
    "A filing says the same whatever prefixes its documents use",
    "A filing has the same facts with all their characteristics, report elements, networks, components and problems whatever prefixes its documents bind to the namespaces of XBRL, Inline XBRL, XLink, XML Schema, the transformation registries, dimensions and taxonomies: usual ones, others, exchanged ones or none, at the root or where they are needed, in some documents or all.",
    ["inputs"],
    "all values of the facts, every namespace and way to spell it of the listed ones, in all documents or one",
    "The tests' filings all bind the usual prefixes at the root.",
    ["brel/parsers/utils/lxml_utils.py", "brel/qnames/qname_utils.py", "brel/parsers/XML/xml_facts_parser.py", "brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
    [("queries and attributes", "brel/parsers/utils/lxml_utils.py"), ("names", "brel/qnames/qname_utils.py"), ("formats", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")],
    "one XML instance and one inline document, two schemas, one linkbase; 10 or 13 namespaces; one or two namespaces spelled otherwise at a time, or all",
)
prop(
    "P21",
    "Tables hold everything once, in the language asked for",
    "The tables of a filing have one row for every fact, core fact, report element, component or label, in the filing's order, with a cell for the id, value and each aspect of a fact, or for each property of an element or component: nothing is left out, repeated or put in another row. Names and texts are in the first language that has one, taken from the call, the filing, the library, the system and the report in this order as far as the switches of the nearest level allow, and are untranslated names only as the last resort. A table that may not mix languages is in the first language that has all texts, a text no language has is an error, and all this holds in whatever directory the program runs.",
    ["inputs", "configurations"],
    "all languages of labels, calls, filings, library, system and reports of the stated lengths, all settings of the switches, all facts, report elements and components of the stated shapes",
    "No test makes a table or asks for a language.",
    ["brel/brel_filing.py", "brel/services/translation/translation_service.py", "brel/config/brel_config.py", "brel/brel_context.py", "brel/brel_fact.py", "brel/brel_component.py", "brel/reportelements/concept.py", "brel/reportelements/dimension.py"],
    [("tables", "brel/brel_filing.py:Filing.generate_fact_table_pandas_df"), ("languages", "brel/brel_filing.py:Filing.get_preferred_languages"), ("texts", "brel/services/translation/translation_service.py:TranslationService"), ("rows of facts", "brel/brel_context.py:Context.convert_to_df_row")],
    "1-3 rows, up to 2 languages and 2 labels with 2 free characters and regions; the rows are recorded where pandas would receive them",
)
prop(
    "P23",
    "Filings of EDGAR: the most recent one of those asked for, from a current list",
    "Of the filings that EDGAR lists for a company, the one is opened, at its address, that has the form asked for and XBRL data, and the report date if one is asked for, and that has the latest report date (the first listed of several); if none fits, or it has no instance, ValueError says so. The list is the company's own, is fetched when there is none or it is more than a day old, is otherwise used without asking again, and is whole even if a fetch failed or the program stopped at any moment before. CIKs that are not 1-10 digits, unknown forms and malformed dates are refused with ValueError before anything is asked or written, and nothing is written outside the cache.",
    ["inputs", "histories", "crash points", "time"],
    "all lists of the stated numbers of filings with free forms, flags and report dates, all forms and dates asked for, all strings of the stated length as CIK and date, all gaps between calls in seconds, every point at which the program may stop",
    "The tests open EDGAR itself and need the network; they cannot vary the list, the clock or the moment the program stops.",
    ["brel/utils/edgar.py"],
    [("choice", "brel/utils/edgar.py:open_edgar"), ("list of filings", "brel/utils/edgar.py:__download_metadata_for_cik")],
    "2-5 filings, dates with up to 4 free digits, 2-4 calls for 1-2 companies with gaps of up to 3 days, one stop",
)
prop(
    "P24",
    "Pretty printing shows every fact and every node, with what it has",
    "The printed table of facts has exactly one row for every fact, with its id, its value and what it has for every aspect, in the column of that aspect, and nothing for aspects it does not have; the table of one fact has all its aspects and its value. A printed network, node or component shows every node of the tree exactly once, in the order of the tree and indented by its depth, with the kind and name of the element, the role, language and text of the label or footnote, or the fact it points to, and the weight of a calculation. Each network of a component is shown, with its role.",
    ["inputs"],
    "all facts of the stated shapes with free ids, values and dimensions, all forests of the stated numbers of nodes with free kinds, names and weights, all components with any of their networks",
    "The tests print one network of one filing and look for four names.",
    ["brel/utils/print_facts.py", "brel/utils/print_networks.py", "brel/utils/print_component.py", "brel/utils/pprint.py"],
    [("facts", "brel/utils/print_facts.py:pprint_facts"), ("networks", "brel/utils/print_networks.py:pprint_network"), ("components", "brel/utils/print_component.py:pprint_component")],
    "1-3 facts, 1-5 nodes, 1-2 components; the console and prettytable are recorders",
)
prop(
    "P25",
    "What a filing says depends on its documents alone",
    "Everything a filing answers - its facts with all aspects, its report elements with their labels, its components and networks, its errors, its tables, its printed form - is determined by the documents it was opened from and the question. It is the same whichever other filings were opened before it or are open beside it, even ones that use the same names and ids with other contents; whatever was asked of it before, and in which order; and in every run of Python, although the order in which Python goes through a set of strings differs from run to run.",
    ["inputs", "schedules", "histories"],
    "all pairs of filings of the stated shapes that share their names and ids, all sequences of up to two questions before the last one, all orders of the elements of every set the code goes through",
    "Every test opens one filing in a process of its own, asks each question once, and runs with one order of every set.",
    ["brel/brel_filing.py", "brel/networks/i_network.py", "brel/data/errors/in_memory_error_repository.py", "brel/data/context/in_memory_context_repository.py", "brel/data/characteristic/in_memory_characteristic_repository.py", "brel/services/xml/xml_service.py", "brel/services/translation/translation_service.py", "brel/services/report_element/report_element_service.py", "brel/utils/print_facts.py", "brel/parsers/XML/networks/xml_extended_link_parser.py"],
    [("open filings", "brel/data/errors/in_memory_error_repository.py:InMemoryErrorRepository"), ("questions", "brel/brel_filing.py:Filing"), ("order of sets", "brel/networks/i_network.py:INetwork.get_arc_roles"), ("order of sets", "brel/services/xml/xml_service.py")],
    "two filings, up to 2 questions of 19 kinds, texts of 1-2 characters; sets of up to 4 elements in all orders, larger ones in one order and its reverse",
)
prop(
    "P26",
    "Tables of table linkbases have the breakdowns, nodes and rules declared",
    "Each table of a table linkbase is read once, with the role of its link, and is found by it. It has exactly the breakdowns its arcs name, on the axes they name; each breakdown has exactly the trees of nodes its arcs make, each with the order of its arc (1 if it gives none), listed as the arcs are. Whether parents or children come first is what a node says, else what is above it says, down from the table (parents first if nobody says). A rule node has its rule sets with their tags and exactly their rules - concepts, periods, entities, members, left out dimensions - and says whether it is abstract or merged; an aspect node has its aspect; relationship nodes have their sources, role, axis, generations, dimension or arc role. Tables of different links never share anything, even if their labels are the same, and comments change nothing.",
    ["inputs"],
    "all trees of the stated numbers of nodes below two breakdowns on all axes, all sequences of the stated numbers of rules of fourteen kinds in any sets, all roles, expressions and names of the stated length, all combinations of the parts of aspect and relationship nodes",
    "No test has a table linkbase; before the repairs of this property no table was ever read.",
    ["brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py", "brel/parsers/XML/formula/xml_aspect_formula_parser.py", "brel/table_linkbases/definition_model/table.py", "brel/table_linkbases/definition_model/breakdown.py", "brel/table_linkbases/definition_model/definition_nodes/closed_definition_node.py", "brel/data/table_linkbase/in_memory_table_linkbase_repository.py"],
    [("tables", "brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py:parse_table_linkbase_from_xml"), ("rules", "brel/parsers/XML/formula/xml_aspect_formula_parser.py:parse_formula_aspect_element"), ("parents and children", "brel/table_linkbases/definition_model/table.py:Table.propagate_parent_child_order"), ("by role", "brel/data/table_linkbase/in_memory_table_linkbase_repository.py")],
    "up to 4 tables, 7 breakdowns, 3-4 nodes in all trees and 14 in four shapes, 3 rules; filters, parameters and labels of tables are left out",
)
