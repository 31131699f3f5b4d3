#!/usr/bin/env python3
"""Writes properties.jsonl (single source: this table)."""
import json, os
I="include/osmium/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],
            mechanism=[dict(name=a,where=I+c) for a,c in mech],
            observe_at=list(observe),hook_needed=hook)))

p("C01","Reading a file drives a handler through one well-formed callback sequence",
 "For every readable OSM XML or PBF input, including one without any objects, the handler gets init exactly once before everything else and final exactly once after everything else. In between, each maximal run of consecutive same-type objects in the input is bracketed by exactly one before_X and one after_X call of that type, with one object callback per object of the run, in file order. This holds wherever block, group or buffer boundaries fall and whichever callbacks the handler implements.",
 ["inputs"],"all sequences of node/way/relation objects (incl. empty), all splits into blocks/groups/reads, both encodings, handlers implementing any subset of callbacks",
 "No test in the repository reads an OSM file at all; handler tests call callbacks by hand.",
 ["input.hpp","input/xml.hpp","input/pbf.hpp","handler.hpp","../osmium.hpp"],
 [("type-change bracketing","input.hpp: call_after_and_before_on_handler"),("group dispatch","input/pbf.hpp: parse_group"),("element state machine","input/xml.hpp: start_element/end_element")],
 [("m_last_object_type","type of the run currently open","input.hpp")],["handler callbacks"])

p("C02","Asking to stop ends reading at once, cleanly, with one final call",
 "When a handler signals that reading should stop from inside any callback other than final, no further callback except exactly one final is made on it, and the read call returns normally to its caller. This holds for every callback in the sequence (including init and the closing after_X calls) and for both encodings, and a later read of the same or another file is unaffected.",
 ["inputs","schedules"],"every callback position of every callback sequence at which the stop can be raised; both encodings",
 "The existing tests never read a file and never throw the stop signal.",
 ["input/xml.hpp","input/pbf.hpp","handler.hpp","handler/find_bbox.hpp","relations/assembler.hpp"],
 [("catch around the parse loop","input/xml.hpp: parse; input/pbf.hpp: parse"),("StopReading","handler.hpp")],(),["handler callbacks","return of the read call"])

p("C03","Objects a handler keeps are never changed or reused by the reader",
 "An object a handler received keeps every attribute, tag, node reference and member exactly as delivered for as long as the handler holds on to it, however many further objects are read afterwards and whatever they contain. Objects that were not kept never leak any of their attributes, tags, references, members or coordinates into a later object.",
 ["inputs","histories"],"all input files and all choices of which delivered objects are kept and for how long",
 "No test reads files; the reader recycles object storage, so the outcome depends on the history of kept objects.",
 ["input.hpp","input/xml.hpp","input/pbf.hpp"],
 [("recycle only when unshared","input.hpp: prepare_node/prepare_way/prepare_relation")],
 [("m_node/m_way/m_relation","recycled object slots of the reader","input.hpp")],["shared_ptr arguments of callbacks"])

p("C04","What is written as PBF reads back as the same objects",
 "Every node, way and relation written to a PBF file is read back exactly once, in the order written within its type, with the same id, version, timestamp, changeset, user id and name, tags in order, node references in order, members with type, id and role in order, coordinates, and (history and change files) visibility; the file's bounds and generator read back too. This holds for any number and mix of objects and strings and for every writer setting (dense nodes on or off, compression on or off, granularities that can represent the values), and switching metadata off drops exactly the metadata.",
 ["inputs","configurations"],"all sequences of objects with any attribute values the data model allows, all writer settings, any number of objects, tags and distinct strings per file",
 "No test writes or reads PBF; errors show only at block boundaries, large ids, negative deltas, many strings or special settings.",
 ["output/pbf.hpp","input/pbf.hpp","utils/stringtable.hpp","utils/delta.hpp","osm/object.hpp"],
 [("delta coding","utils/delta.hpp; output/pbf.hpp: write_dense_node"),("interim to final string ids","utils/stringtable.hpp; output/pbf.hpp: map_string_ids"),("block flush","output/pbf.hpp: check_block_contents_counter")],
 [("string_table","strings of the open block","output/pbf.hpp"),("m_delta_*","last values of the open block","output/pbf.hpp")],["objects delivered by a read of the written file"])

p("C05","What is written as XML reads back as the same objects",
 "Every object written to an OSM XML file, plain or gzip/bzip2 compressed, is read back exactly once and in the order written with the same id, version, timestamp, changeset, user id and name, tags, node references, members, coordinates (seven decimals), undefined coordinates staying undefined, and in history files the visible flag; the file's bounds and generator read back too. Any text that XML can carry survives in tags, roles, user names and generator. Users without a positive user id read back as anonymous without a name.",
 ["inputs","configurations"],"all object sequences with any attribute values and XML-representable strings; file types OSM and history; three compressions",
 "No test writes or reads XML; escaping, whitespace and buffer boundaries need unusual inputs.",
 ["output/xml.hpp","input/xml.hpp","osm/object.hpp","osmfile.hpp","utils/timestamp.hpp"],
 [("attribute writing","output/xml.hpp: write_meta/write_tags"),("attribute parsing","input/xml.hpp: init_object; osm/object.hpp: set_attribute")],(),["objects delivered by a read of the written file","the XML text"])

p("C06","Change files keep the operation of every object",
 "A written change file consists of create, modify and delete sections such that, in order, every deleted object lies in a delete section, every visible object of version 1 in a create section and every other visible object in a modify section, each section being as long as possible and never nested. Reading any change file makes exactly the objects inside delete sections invisible and all others visible, for any order and number of sections, and all object data round-trips as in other files.",
 ["inputs","histories"],"all sequences of objects over types, versions and visibility; all section sequences on input, including empty and repeated sections",
 "No test writes or reads change files.",
 ["output/xml.hpp","input/xml.hpp"],
 [("section switching","output/xml.hpp: open_close_op_tag"),("delete section flag","input/xml.hpp: start_element/end_element")],
 [("m_last_op","section currently open","output/xml.hpp"),("m_in_delete_section","inside <delete>","input/xml.hpp")],["XML structure","visible flag of delivered objects"])

p("C07","Written PBF files obey the PBF format for any other reader",
 "Every PBF file written is a sequence of length-prefixed blobs within the format's size limits, starting with exactly one header blob that announces the features used and nothing else (dense nodes, history), followed by data blobs of at most 8000 objects whose groups each hold one kind of object. An independent decoder of the published format reads from it exactly the objects written: string index 0 is empty and never used as a key, all string references resolve inside their own block, delta coding starts afresh in every block, and granularities and raw sizes are stated correctly.",
 ["inputs","configurations"],"all object sequences and writer settings",
 "No test looks at PBF bytes; Osmium reading its own output would hide symmetric mistakes.",
 ["output/pbf.hpp","utils/stringtable.hpp","utils/delta.hpp"],
 [("blob framing","output/pbf.hpp: store_blob"),("header features","output/pbf.hpp: init"),("block reset","output/pbf.hpp: store_primitive_block")],
 [("primitive_block_contents","objects in the open block","output/pbf.hpp"),("primitive_block_size","estimated size of the open block","output/pbf.hpp")],["bytes of the written file"])

p("C08","Truncated or damaged input is reported, never silently accepted",
 "When an input file ends early inside a structural unit, has broken framing, compression or XML syntax, or its decompression or download program fails, reading ends with an exception instead of returning as if the file were complete. Every object delivered before that is one the intact file contains, and after the failure the process holds no extra open file and no unreaped child process.",
 ["inputs","crash_points","fault_sequences"],"every truncation point of every input file in every encoding, corrupted framing/compressed data, every decompressor exit status",
 "No test reads damaged files.",
 ["input/xml.hpp","input/pbf.hpp","osmfile.hpp","../osmium.hpp"],
 [("framing checks","input/pbf.hpp: read_blob_header/read_blob"),("expat error check","input/xml.hpp: parse"),("child exit status","osmfile.hpp: close")],(),["exception or normal return of the read call","/proc/self/fd","child processes"])

p("C09","A file of the wrong kind is refused before any object is delivered",
 "Reading a PBF file that carries history with an ordinary-OSM file description, or one without history with a history description, fails with the matching file type error, and a PBF file requiring an unknown feature or an XML file of another OSM version is refused, all before any object is delivered. Files whose features match (in any order, dense nodes included) are accepted, and a change description accepts both.",
 ["inputs","configurations"],"all combinations of announced features and requested file type",
 "No test opens a PBF or XML file through a reader.",
 ["input/pbf.hpp","input/xml.hpp","osmfile.hpp"],
 [("feature check","input/pbf.hpp: parse"),("version check","input/xml.hpp: start_element")],(),["exception type","absence of object callbacks"])

p("C10","A write that fails is reported, or the file is complete",
 "If writing an OSM file runs through its final step without an exception, the complete content has reached the output file: after any write call that fails, or a compression program that cannot start or exits with an error, some call of the writing sequence throws. Short writes by the operating system never lose or duplicate bytes.",
 ["fault_sequences","crash_points"],"every position and kind of failure or short count of the operating system's write calls, every compressor outcome, all encodings",
 "No test writes files through the output classes, and none injects faults.",
 ["output/pbf.hpp","output/xml.hpp","output.hpp","osmfile.hpp"],
 [("write checks","output/pbf.hpp: store_blob; output/xml.hpp: check_for_error"),("close and child status","osmfile.hpp: close")],(),["exceptions","bytes in the output file"])

p("C11","File objects own their descriptor and child process exactly once",
 "A file description that is opened holds exactly one descriptor (and one child process when compression or download is needed); closing or destroying it releases exactly these, exactly once, and reports a failed child once. Copies and assigned-to descriptions share type, encoding and name but never a descriptor or child, and no sequence of open, copy, assign, close and destroy operations on several descriptions leaks or closes a foreign descriptor, leaves a zombie, or makes one output wait for another.",
 ["histories"],"all sequences of open/copy/assign/close/destroy over several file descriptions, plain and compressed, with any number of descriptors open",
 "Existing tests open and close single files; none combines several or inspects the process's descriptors and children.",
 ["osmfile.hpp","output.hpp","input.hpp"],
 [("copy semantics","osmfile.hpp: OSMFile(const OSMFile&)/operator="),("close","osmfile.hpp: close/~OSMFile"),("child descriptor hygiene","osmfile.hpp: execute")],
 [("m_fd/m_childpid","owned descriptor and child","osmfile.hpp")],["/proc/self/fd","waitpid","fd()"])

p("C12","File names and format names map to the documented type and encoding",
 "The type and encoding of a file follow from the text after the first dot of the last path component exactly as documented (.osm/.osh/.osc for OSM, history and change; .pbf, .gz, .bz2 or plain XML), an empty name or '-' means PBF on standard input/output, and an http(s) URL means XML fetched by a download program; anything else is PBF. Explicit type and encoding names accept exactly the documented spellings and refuse all others with an error leaving the setting unchanged, and deriving the default file name for a type and encoding keeps the directory and base name and yields a name that maps back to them (change files in PBF, which have no suffix of their own, excepted).",
 ["inputs"],"all file name strings, including dots in directories, several dots, empty components, URLs; all type/encoding name strings",
 "Tests cover a handful of names.",
 ["osmfile.hpp"],
 [("suffix table","osmfile.hpp: set_type_and_encoding"),("name parsing","osmfile.hpp: OSMFile(const std::string&)"),("default suffix","osmfile.hpp: filename_with_default_suffix")],(),["type()","encoding()","filename()"])

p("C13","Any conforming PBF encoding of the same data reads as the same objects",
 "The reader delivers the objects a PBF file encodes according to the published format for every legal encoding choice: any granularity, offsets and date granularity, dense or plain nodes, with or without metadata or visibility, compressed or raw blobs, blocks and groups in any number, sharing or repeating strings in any order, unknown optional features, unknown blob types and unknown fields being skipped. Values are exact wherever they are representable.",
 ["inputs"],"all legal encodings of all object sequences",
 "Osmium's own writer only produces one of these encodings, and no test reads PBF.",
 ["input/pbf.hpp","osm/position.hpp"],
 [("group parsers","input/pbf.hpp: parse_*_group"),("unit conversion","input/pbf.hpp: m_date_factor, granularity arithmetic")],(),["objects delivered"])

p("C14","By-id stores behave as one map from id to latest value",
 "In every by-id store, looking up an id that has been set returns the value most recently set for it, whatever ids were set before or after and in whatever order and magnitude (for the ordered-vector store: ids set in ascending order, possibly repeated), including across every internal growth step. A file-backed store that is kept returns the same values when opened again; stores that report unset ids return the default value for them, as do mapped stores for ids beyond their size; clearing a store frees it, can be repeated, and does not harm any other memory.",
 ["histories"],"all sequences of set/get/clear/reopen over all ids, values and store kinds",
 "No test touches the stores; growth happens only beyond ten million ids.",
 ["storage/byid.hpp","storage/byid/fixed_array.hpp","storage/byid/mmap_anon.hpp","storage/byid/mmap_file.hpp","storage/byid/sparse_table.hpp","storage/byid/stl_map.hpp","storage/byid/vector.hpp"],
 [("growth","storage/byid/mmap_anon.hpp: set; mmap_file.hpp: set; sparse_table.hpp: set"),("binary search","storage/byid/vector.hpp: operator[]")],
 [("m_items/m_size","mapped or allocated items","storage/byid/*.hpp")],["operator[]","contents of the backing file"])

p("C15","Ways get the coordinates of exactly their nodes",
 "After nodes have passed the coordinate handler, every node reference of every way that passes gets the position most recently seen for a node of exactly that id, positive and negative ids (and ids of equal magnitude and opposite sign) never being confused, without changing the way's references, their order or any other attribute. Looking a position up by id gives the same answer, and references to unknown nodes get whatever the chosen store returns for unset ids.",
 ["histories","inputs"],"all streams of nodes and ways with ids of either sign, any choice of stores",
 "No test uses the handler.",
 ["handler/coordinates_for_ways.hpp","osm/way_node.hpp","storage/byid.hpp"],
 [("sign split","handler/coordinates_for_ways.hpp: node/way/get_node_pos")],(),["positions in way node lists"])

p("C16","The object store keeps every distinct object version, in order",
 "An object store that was given any sequence of objects feeds another handler each distinct (type, id, version) exactly once, nodes then ways then relations, each group in the library's order (magnitude of id, then sign, then version), inside complete before/after brackets between one init and one final. Storing an already stored version again keeps the first; positive and negative ids of equal magnitude are different objects; clearing empties exactly the cleared kinds and feeding with clearing leaves the store empty.",
 ["histories"],"all sequences of store/clear/feed operations",
 "No test uses the object store.",
 ["storage/objectstore.hpp","osm/node.hpp","osm/way.hpp","osm/relation.hpp"],
 [("ordered sets","storage/objectstore.hpp"),("object ordering","osm/node.hpp, way.hpp, relation.hpp: operator<")],
 [("m_nodes/m_ways/m_relations","stored objects","storage/objectstore.hpp")],["callbacks made by feed_to"])

p("C17","Merging a store into a stream yields one sorted stream with every object",
 "When an object store is merged into an ordered stream of objects, the next handler sees the caller's meta data at init, then per object type every stream object and every stored object of that type exactly once, in the common order by id and version, inside one before/after bracket of that type, for every type that occurs in the stream or the store, and then final.",
 ["histories","inputs"],"all ordered streams (types may be absent) and all store contents",
 "No test uses the merging handler.",
 ["storage/objectstore.hpp","handler.hpp"],
 [("merge step","storage/objectstore.hpp: ApplyHandler::node/way/relation/after_*")],
 [("m_nodes_iter...","next stored object to emit","storage/objectstore.hpp")],["callbacks on the next handler"])

p("C18","The library's orderings are consistent total orders",
 "Nodes, ways, relations and areas (by value and by pointer) are ordered by magnitude of id, then sign of id (the negative one first), then version: for any objects the order is irreflexive, transitive, and two objects are equivalent only if id and version agree. Positions, way nodes, segments and undirected segments likewise order consistently with their equality, and an undirected segment is the same whichever end is given first.",
 ["inputs"],"all pairs and triples of objects, positions and segments",
 "Tests compare a few pairs with distinct positive ids.",
 ["osm/node.hpp","osm/way.hpp","osm/relation.hpp","osm/area.hpp","osm/position.hpp","osm/way_node.hpp","osm/segment.hpp","osm/undirected_segment.hpp"],
 [("operator<","osm/*.hpp")],(),["operator<, ==, !=, >, <=, >="])

p("C19","A relation is handed over complete exactly once, with its own members",
 "In a two-pass assembly every kept relation with wanted members is handed over exactly once, at the moment the last of its wanted members has arrived, with every wanted member's object in exactly its member position (also when an object is a member several times or of several relations) and all other positions empty; a relation missing any wanted member is never handed over and stays listed. Objects of wanted types that no kept relation wants are reported once as such and no others; when all wanted types have gone by, this is announced once; and the nested handler sees the unchanged second pass.",
 ["histories","inputs"],"all sets of relations, members (wanted or not, repeated, missing, nested) and object streams as in OSM files (objects of one type next to each other; of several versions of an object the first counts); any wanted types",
 "No test touches relation assembly.",
 ["relations/assembler.hpp","relations/relation_info.hpp"],
 [("member index","relations/assembler.hpp: add_relation/sort_member_infos/find_and_add_object"),("countdown","relations/relation_info.hpp: add_member")],
 [("m_relations","kept relations not yet complete","relations/assembler.hpp"),("m_member_infos","who wants which object","relations/assembler.hpp"),("m_need_members","wanted members still missing","relations/relation_info.hpp")],["assembler hooks","nested handler callbacks"])

p("C20","End times come from the next version and nothing else changes",
 "Fed any stream of object versions, the end-time handler passes on every object exactly once, in order and inside its type's bracket, with nothing changed except the end time, which is the timestamp of the immediately following object if that is of the same type and has the same id, and unset otherwise. Init, before, after and final pass through once each at the right place.",
 ["histories"],"all streams of versions of nodes, ways and relations as a reader delivers them, also several reads with one handler, and stopped ones",
 "No test uses the handler; correctness depends on the previous object.",
 ["handler/endtime.hpp"],[("one object look-ahead","handler/endtime.hpp: node/way/relation/after_*")],
 [("m_last_node/way/relation","object held back","handler/endtime.hpp")],["callbacks on the next handler"])

p("C21","A history range passes exactly the versions alive in the range",
 "The range handler passes on, unchanged and in order, exactly those object versions whose timestamp is not after the end of the range and whose end time is unset or not before its start, boundaries included, and passes all other callbacks through once. Combined with the end-time handler on a sorted history, a point-in-time range strictly between changes passes at most one version per object.",
 ["histories","inputs"],"all histories and all ranges, including boundaries and empty ranges",
 "No test uses the handler.",
 ["handler/range_from_history.hpp","handler/endtime.hpp"],[("time filter","handler/range_from_history.hpp: node/way/relation")],(),["callbacks on the next handler"])

p("C22","A bounding box is the tightest box around the defined positions seen",
 "After any sequence of positions a bounds object is undefined if no defined position was seen, and otherwise its corners are exactly the minimum and maximum longitude and latitude of the defined positions seen, independent of order and repetition; undefined positions change nothing. The bounding-box handler yields that box for all nodes of a file and stops reading after the first run of nodes.",
 ["inputs","histories"],"all sequences of positions incl. undefined ones and extremes",
 "No test uses bounds or the handler.",
 ["osm/bounds.hpp","handler/find_bbox.hpp","osm/position.hpp"],[("extend","osm/bounds.hpp: extend")],(),["bottom_left/top_right/defined"])

p("C23","Handler stacks deliver every callback to every handler exactly once, in order",
 "A forwarding handler passes each callback, with the same object, to its target exactly once, and a sequence of handlers passes each to the first and then to the second, for every callback kind, under any nesting of forwards and sequences. A change an earlier handler makes to an object is visible to the later ones, and a stop signal raised by one handler prevents delivery of that callback to later ones and ends the read.",
 ["programs","histories"],"all nestings of forwarding and sequencing handlers over all callback sequences",
 "Tests cover one forward and one sequence with a fixed callback list.",
 ["handler.hpp"],[("Forward","handler.hpp"),("Sequence","handler.hpp")],(),["callbacks of leaf handlers"])

p("C24","Tag filters decide by the first matching rule",
 "A tag filter's answer for a tag is the result of the first rule, in order of addition, that matches the tag, and the default if none does: key rules match equal keys, key-value rules equal keys and, if a (non-empty) value is given, equal values, regular-expression rules whole keys and, if given, whole values. Iterating a tag list through a filter visits exactly the accepted tags in order, and filtered accumulation folds exactly these in that order.",
 ["inputs","programs"],"all rule lists, defaults, tag lists (repeated keys, empty strings)",
 "Tests use a few fixed rule lists.",
 ["tags/key_filter.hpp","tags/key_value_filter.hpp","tags/regex_filter.hpp","utils/filter_and_accumulate.hpp"],
 [("rule scan","tags/*_filter.hpp: operator()")],(),["filter results","iteration"])

p("C25","Tags written as text can be read back unambiguously",
 "Turning tags into text writes for each tag prefix, escaped key, infix, escaped value and suffix, joined by the join string between tags only, escaping exactly the listed characters. The hstore form of any list of tags parses back, under the hstore syntax, to exactly the same keys and values for any bytes in them.",
 ["inputs"],"all tag lists with any bytes (but NUL) in keys and values, all parameter choices that write something for every tag",
 "Tests use a few plain strings.",
 ["tags/to_string.hpp","utils/filter_and_accumulate.hpp"],[("escaping","tags/to_string.hpp: append_escaped_string")],(),["output string"])

p("C26","Timestamps convert to ISO text and back without loss",
 "Every timestamp from 1970 to 9999 except zero converts to the text YYYY-MM-DDThh:mm:ssZ of that instant in UTC, independent of the process's time zone, and parsing that text gives the same timestamp back; zero converts to empty text. Times before 1970 convert to the text of their instant, too. Text without this structure (parts missing, other separators, anything after it) or with a field outside its range is refused with an error and leaves an object's timestamp unchanged.",
 ["inputs","configurations"],"all timestamps, all strings, all time zones",
 "Tests check a few instants.",
 ["utils/timestamp.hpp","osm/object.hpp"],[("to_iso/parse_iso","utils/timestamp.hpp")],(),["strings and time_t values"])

p("C27","All representations of a geometry describe the same coordinates",
 "For any node, way or closed way with positions, the text, binary, hexadecimal, OGR and GEOS representations of its point, linestring or polygon contain the same coordinates at full seven-decimal precision, in way order or, when reversed is requested, in opposite order, with correct type, count and (on request only) SRID. A polygon from a way that is empty or not closed is refused.",
 ["inputs"],"all coordinate sequences, both directions, with and without SRID, extreme coordinates",
 "Tests use a few short ways with small coordinates.",
 ["geometry.hpp","geometry/point.hpp","geometry/linestring.hpp","geometry/polygon.hpp","geometry/ogr.hpp","osm/way_node_list.hpp"],
 [("writers","geometry/*.hpp: write_to_stream, create_ogr_geometry")],(),["output bytes","OGR objects"])

p("C28","OSM objects are independent values with validated attributes",
 "A copy of an object (tags, node references, members, all attributes included) equals the original at the time of copying, and later changes to either never affect the other. Setting any attribute changes exactly that attribute and reads back the value set, string and numeric setters agreeing; lists keep additions in order and lookup by key returns the first match or nothing; over-long user names and roles are refused with an error that leaves the old value.",
 ["histories","inputs"],"all sequences of construct/copy/set/add operations over several objects",
 "Tests set a few attributes on single objects.",
 ["osm/object.hpp","osm/node.hpp","osm/way.hpp","osm/relation.hpp","osm/tag_list.hpp","osm/way_node_list.hpp","osm/relation_member_list.hpp","osm/relation_member.hpp","osm/position.hpp"],
 [("copy constructors","osm/object.hpp, way.hpp, relation.hpp"),("setters","osm/object.hpp: set_attribute")],(),["getters"])

p("C29","String tables give every distinct string its own resolvable index",
 "After recording any sequence of strings and storing the table, the stored table starts with an empty string at index 0 followed by each distinct recorded string exactly once, and every id returned while recording maps to a non-zero index whose entry is exactly the string recorded, same strings getting the same id and more often used strings never a higher index than less often used ones. After clearing, the table behaves as new; this holds for any number of strings.",
 ["histories","inputs"],"all sequences of record/store/clear, any number of distinct strings and repetitions",
 "No test uses the string table; limits appear only with tens of thousands of strings.",
 ["utils/stringtable.hpp"],[("record/store/map","utils/stringtable.hpp")],[("m_strings/m_id2id_map","interim table and mapping","utils/stringtable.hpp")],["record_string","store_stringtable","map_string_id"])

p("C30","Multipolygon relations become areas with the right rings",
 "Once all ways of a relation of type multipolygon or boundary have been seen, the assembler hands on exactly one area for it if these ways divide into closed rings that do not cross: polygons whose outer rings run clockwise and whose holes, those rings directly inside, run counter-clockwise, rings at even depth being outer ones, and two holes with a common edge being joined. The rings depend neither on the splitting into ways nor on their order, direction or role. Id, attributes, latest timestamp and tags (those of outer ways if the relation has none; a single closed outer way adds missing ones) are right, tagged inner ways differing from the relation get areas of their own, closed ways in no such relation become areas, and relations with open rings none unless repair, which closes a single gap with a straight line, is on. Copies of an area and all its geometry forms are equal.",
 ["inputs"],"all divisions of the plane into nested rings, all splits into ways, orders, directions and roles, with and without repair",
 "The code does not compile with the installed GEOS, so no test exercises it; the division into rings and their nesting is a search over orders a sample cannot settle.",
 ["multipolygon/assembler.hpp","multipolygon/builder.hpp","osm/area.hpp","geometry/multipolygon.hpp"],[("ring building, nesting, tags","multipolygon/builder.hpp"),("copying","osm/area.hpp")],[("m_ringlist","the rings found","multipolygon/builder.hpp"),("m_areas","the areas handed on","multipolygon/builder.hpp")],["area callback","geometry of the area"])

p("C31","Shapefile output keeps every geometry and attribute",
 "Every geometry accepted by a shapefile is stored once and in order with its coordinates and its row of attributes in one of the files written, strings being cut only at character boundaries; geometries of the wrong type or without enough distinct points are refused and leave nothing behind. A new file of a sequence, with the same fields, is started exactly when the next shape or its row would make the .shp or .dbf file larger than 2147483647 bytes. The files bear the given name and a number for each further one; a file that cannot be created is an error that leaves no file open.",
 ["inputs","histories"],"all sequences of fields (before geometries), geometries and attributes, of any size",
 "The code does not compile with the installed GEOS, so no test exercises it, and tests do not write files of 2 GB.",
 ["export/shapefile.hpp","geometry/shplib.hpp"],[("sequence switching and truncation","export/shapefile.hpp")],[("m_current_shape","shape the attributes belong to","export/shapefile.hpp")],["files written"])

p("C32","JavaScript handlers see the same objects as C++ handlers",
 "A JavaScript handler is called for the same callbacks, in the same order and, while the callback runs, with the same attributes, tags, node references, members and geometries as a C++ handler on the same file, for every callback that was set to a function when all files of the script had been run (included files each time they are included, in the order written). A tag is found by its key, any other key is undefined, as are nodes and members beyond the last. Exceptions of a callback are reported and do not change what follows; a script that cannot be read, parsed or run ends the program with exit code 1. What a script prints, writes to CSV files and adds to shapefiles arrives complete and unaltered (texts cut to the field's width between characters).",
 ["inputs","programs","histories"],"all files with ids up to 2^53 and texts of up to 255 characters, all scripts that set callbacks and read what they are given",
 "The V8 interface it is written for is not installed, so nothing of this is built or tested here.",
 ["javascript.hpp","javascript/handler.hpp","javascript/template.hpp","javascript/unicode.hpp","javascript/wrapper/osm.hpp","javascript/wrapper/geometry.hpp","javascript/wrapper/export_csv.hpp","javascript/wrapper/export_shapefile.hpp"],
 [("calling the script's functions","javascript/handler.hpp"),("attributes, tags, nodes, members","javascript/wrapper/osm.hpp"),("conversion between UTF-8 and UTF-16","javascript/unicode.hpp")],[("cb","the functions of the script","javascript/handler.hpp")],["calls of the script's functions and what they read","files and text written by the script"])

p("C33","The debug dump shows every callback and every object completely",
 "The debug handler writes, for each callback it gets, exactly one block of text at that moment: the callback's name, and for an object all its attributes, tags, node references or members in order and unaltered, coordinates with seven decimals and times as ISO text; visibility and end time appear exactly if several object versions were announced at construction or by the meta data, which is shown with its generator and its bounds if defined.",
 ["histories","inputs"],"all sequences of callbacks and all objects, both settings of the multiple versions flag, any output stream",
 "No test looks at the dump.",
 ["handler/debug.hpp"],[("print_meta and the callbacks","handler/debug.hpp")],[("m_has_multiple_object_versions","whether versions are shown","handler/debug.hpp")],["the text written to the stream"])

p("C34","Converting a file keeps every object",
 "Reading any file straight into an output handler for any other type or encoding, also repeatedly, gives a complete file that holds every object exactly once, in the same order within its type and with every attribute, tag, node reference and member unchanged; the bounds of the file are kept. Only what a format of the chain cannot hold changes: visibility is lost in ordinary OSM files, and names of anonymous users in XML.",
 ["inputs","configurations","histories"],"all files, all chains of types (OSM, history, change) and encodings (XML, gzip, bzip2, PBF)",
 "Tests neither write files nor connect readers to writers; the writer keeps objects of the reader until a block is full.",
 ["input.hpp","input/xml.hpp","input/pbf.hpp","output.hpp","output/xml.hpp","output/pbf.hpp","handler.hpp"],
 [("handing out and keeping objects","input.hpp: call_*_on_handler; output/pbf.hpp: nodes, ways, relations lists"),("registration","output.hpp: Factory")],
 [("m_nodes, m_ways, m_relations","objects kept for the block being built","output/pbf.hpp")],["the file written, read back"])

p("C35","The progress display counts every object and stays off non-terminals",
 "If standard output is not a terminal the progress handler writes nothing. On a terminal it hides the cursor at init and shows it again at final; a line is written at init, at final and after every step-th object of a type, exactly then, and each shows the number of nodes, ways and relations seen so far, the rate since the first object of the current type, and at the end the averages of each type present, none of them negative.",
 ["histories","configurations"],"all sequences of objects, all steps, any clock readings",
 "No test runs the handler.",
 ["handler/progress.hpp"],[("update_display, final","handler/progress.hpp")],[("m_count_*, m_first_*","counters and start times","handler/progress.hpp")],["the text written to standard output"])

p("C36","Distances on the sphere are those of the great circle",
 "The distance between two positions is that of the great circle on a sphere of the documented radius: never negative, symmetric, zero exactly for the same place, proportional to the angle along meridians and the equator, at most half the circumference, unchanged when both positions are moved in longitude or mirrored, and never longer than a detour. The length of a way is the sum over its consecutive pairs of nodes, whatever its direction, and zero for fewer than two nodes.",
 ["inputs"],"all pairs and sequences of valid positions",
 "Tests compute two distances.",
 ["geometry/haversine.hpp","osm/position.hpp","osm/way_node_list.hpp"],[("distance","geometry/haversine.hpp")],(),["return values"])

p("C37","The osmjs program runs scripts over a file as its options say",
 "The osmjs program loads the files given with -i (found in the documented directories, with .js added if there is no suffix) in their order and then the script of -j, all of which see the remaining arguments in argv and the setting of -d in Osmium.debug, and then calls the script's callbacks for every object of the file once and in order; the first of the two passes that -2 and -m ask for is not seen by the script. With every location store but 'none' ways and areas have the same, right positions; without one they have none. Only with two passes areas come, each for the right way or relation and as soon as its last way has gone by; open rings are closed unless -r is given. Wrong options, missing arguments, impossible combinations, include files that are not found, scripts that fail and files that cannot be read end the program with an error before or instead of the remaining callbacks; --help ends it without one.",
 ["configurations","inputs"],"all command lines, all arrangements of script files, all files ordered by type",
 "The program is not built here (V8 is missing in the form it wants) and has no tests.",
 ["../../osmjs/osmjs.cpp","javascript/handler.hpp","multipolygon/assembler.hpp","handler/coordinates_for_ways.hpp","handler.hpp"],
 [("options, order of handlers, passes","../../osmjs/osmjs.cpp: main"),("search for include files","../../osmjs/osmjs.cpp: find_include_file")],(),["what scripts print","exit code"])

p("C38","The rules of a shapefile configuration decide what is in the shapefiles",
 "With the export library of osmjs (osm2shape.js), every node, way and area that matches a rule of the configuration (it has the key, with any value if the rule gives none or '*', or else with one of the values the rule lists between '|') becomes one record for each such rule, in the order of the file and the rules, in the shapefile the rule names, if its geometry is of the kind of the file; nothing else is in the files. The id column is filled by itself, the columns named by attr from their tags (the last attr of a column counts), all others are empty; texts are cut at the width of the column between characters, BOOL columns have true, false or nothing according to the value, numbers are exact. Every declared file is there under its filename, with its columns, even if it stays empty. A configuration that names an unknown geometry type, column type, file or column, or attributes before the output, is refused with an error and leaves no files.",
 ["inputs","configurations"],"all configurations, all files of ordered objects",
 "There are no tests of the Javascript library.",
 ["../../osmjs/js/osm2shape.js","javascript/wrapper/export_shapefile.hpp","export/shapefile.hpp","../../osmjs/osmjs.cpp","javascript/handler.hpp"],
 [("rules, attributes","../../osmjs/js/osm2shape.js: build_func, tags2attributes, check"),("values of the columns","javascript/wrapper/export_shapefile.hpp: add")],(),["the shapefiles","exit code"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        for fl in x["anchors"]["files"]:
            assert os.path.exists(os.path.normpath(os.path.join("/repo",fl))),fl
        x["anchors"]["files"]=[os.path.normpath(fl) for fl in x["anchors"]["files"]]
        f.write(json.dumps(x)+"\n")
print(len(P))
