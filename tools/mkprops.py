import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],observe_at=[observe])))
M="src/ucis/merge/db_merger.py"; B="src/ucis/report/coverage_report_builder.py"; R="src/ucis/report/coverage_report.py"
XW="src/ucis/xml/xml_writer.py"; XR="src/ucis/xml/xml_reader.py"; XF="src/ucis/xml/xml_factory.py"; Y="src/ucis/yaml/yaml_reader.py"
MEM=["src/ucis/mem/mem_scope.py","src/ucis/mem/mem_scope_iterator.py","src/ucis/mem/mem_cover_index_iterator.py","src/ucis/mem/mem_covergroup.py","src/ucis/mem/mem_cross.py","src/ucis/mem/mem_ucis.py","src/ucis/coverpoint.py"]
p("C01","Merged hit counts are exact sums",
 "For every list of source databases, every bin of the merged database (ordinary, ignored or illegal; in type coverpoints, instance coverpoints and crosses) has a hit count equal to the sum of the counts of all source bins with the same kind, bin name and path of instance, covergroup, covergroup instance and coverpoint/cross names. No hit is lost, duplicated or credited to another bin, including when one source holds several items of the same name.",
 ["inputs"],"all lists of databases (any number, any structure below top-level instances, any counts)",
 "The sum depends on how names coincide across and inside any number of sources and levels; tests try a few two-source overlaps with small counts.",
 [M,"src/ucis/coverpoint.py"],["DbMerger grouping of same-named scopes per level","per-kind accumulation of bin counts by name","createBin stores the accumulated count"],"bin counts of the destination database")
p("C02","Merged structure is the union of the sources, in first-seen order",
 "The merged database contains each instance, covergroup, covergroup instance, coverpoint, cross and bin that occurs in any source exactly once and nothing else, siblings of one kind in order of first appearance over the source list. Name, weight and source location of covergroups, covergroup instances, coverpoints and crosses, the design unit's name, the crossed coverpoints of a cross and the hit threshold of a bin are those of the first occurrence, and a crossed coverpoint is the merged coverpoint of the same covergroup (or instance).",
 ["inputs"],"all lists of databases in which every cross refers to coverpoints of its own covergroup",
 "Union, uniqueness and order must hold for every pattern of overlap; tests check single lookups.",
 [M],["first-seen name lists per level","creation of destination scopes from the first source scope","coverpoint name map used for cross operands"],"scope tree of the destination database")
p("C03","Merging never changes or aliases its sources",
 "After a merge every source database has exactly the content it had before, also when the same database is listed more than once. The merged database shares no scope and no bin with a source, so later changes to one side are not visible on the other.",
 ["inputs","histories"],"all source lists, followed by any later update of source or result",
 "Aliasing only shows under later mutation of one side; no test mutates after merging.",
 [M,"src/ucis/mem/mem_cover_index.py"],["destination scopes and bins are freshly created","sources are only read"],"source databases before/after; identity of scopes and bins")
p("C04","Merging is order-insensitive and composes",
 "Reordering the source databases changes no merged hit count, and merging the results of partial merges gives the same bins and counts as merging everything at once. Merging a single database whose sibling names are unique reproduces its functional coverage exactly.",
 ["inputs","histories"],"all source lists, their permutations and groupings",
 "An algebraic law over all inputs and all groupings of a regression's databases.",
 [M],["summation by name","first-seen order","idempotent copy of structure"],"pairs of merged databases")
p("C05","Coverpoint and cross percentages are exact hit ratios",
 "In every report the coverage of a coverpoint or cross is 100 times the number of its ordinary bins whose hit count has reached the bin's threshold, divided by the number of its ordinary bins, and 0 when it has none. Ignored and illegal bins never influence it, and a listed bin is marked hit exactly when its count reaches its threshold.",
 ["inputs"],"all coverpoints and crosses: any mix of bin kinds, counts and thresholds",
 "The ratio must be right for every combination of counts around the threshold and of bin kinds.",
 [B,R],["bin classification by kind","count >= threshold test","ratio with zero guard"],"coverage attribute of report coverpoints/crosses and hit flag of report bins")
p("C06","Covergroup and overall coverage are weighted means",
 "In every report the coverage of a covergroup or covergroup instance is the weight-weighted mean of the coverages of its own coverpoints and crosses, and the overall coverage is the weight-weighted mean of the coverages of all reported type covergroups of all instances; either is 0 when the weights sum to zero. All percentages lie between 0 and 100, and zero-weight items do not influence the mean.",
 ["inputs"],"all databases with non-negative weights, any number of instances, covergroups, coverpoints and crosses",
 "Depends on all weights and coverages at once, including empty and zero-weight corner cases.",
 [B],["weighted accumulation in covergroup building","overall accumulation over instances"],"coverage attribute of report covergroups and report root")
p("C07","Reports are complete and faithful",
 "A report lists every covergroup of every instance, with every covergroup instance, coverpoint and cross below it, in database order and with their names and weights, and nothing else. Every ordinary bin of every coverpoint and cross and every ignored and illegal bin of every coverpoint appears exactly once, in order, in the list of its kind with its own name, count and threshold; building a report does not change the database.",
 ["inputs"],"all databases",
 "Completeness must hold for every tree shape and list length.",
 [B,R],["recursive construction of report objects from scope iteration","one report bin per cover item of the kind"],"report object tree")
p("C08","The in-memory database returns exactly what was stored",
 "Iterating the child scopes of a scope, or the cover items of a coverpoint or cross, with a type mask yields exactly the children/items whose type intersects the mask, each once, in creation order, with the name, weight, source location, type, crossed coverpoints, count and threshold given at creation; history nodes are likewise returned by kind. Creating or iterating content of one scope never changes another scope, several iterations are independent of each other, and equal file names share one file handle.",
 ["inputs","histories"],"all sequences of create, increment and iterate operations and all masks",
 "Must hold after every history of operations and for all masks.",
 MEM+["src/ucis/mem/mem_history_node_iterator.py","src/ucis/mem/mem_cover_index.py","src/ucis/mem/mem_instance_scope.py"],["append-only child and item lists","index-based masked iterators","creation methods pass attributes through"],"iteration results and getters")
p("C09","XML write and read back preserves coverage",
 "Writing any database with uniquely named top-level instances to XML and reading it back yields the same instances, covergroup types, covergroup instances, coverpoints, crosses with their crossed coverpoints, and bins with name, kind and hit count, in the same order. A covergroup that has no instances comes back as a type with a single instance of the same name and content.",
 ["inputs"],"all databases whose names are valid XML text without surrounding blanks (weights, thresholds and source locations are outside the format written)",
 "A round trip over arbitrary structures, names and counts; tests compare two fixed databases.",
 [XW,XR,XF],["writer traversal emitting one element per scope/bin","reader traversal creating one scope/bin per element","bin kind encoding and decoding"],"database read back from the written text")
p("C10","Type coverage read from XML aggregates its instances",
 "For every valid document, the covergroup type read from a set of same-typed instances has one coverpoint/cross per distinct name over the instances (a cross over the coverpoints of its first occurrence), holding one bin per distinct kind and bin name whose count is the sum over all instances, while each instance keeps its own counts. Instances with different type names stay in different types, and a cross naming a coverpoint its instance does not have is rejected.",
 ["inputs"],"all schema-valid documents with covergroup coverage",
 "Sums over any number of instances with any overlap of names.",
 [XR],["grouping of instance elements by type name","accumulation of counts per bin over instances","population of type coverpoints and crosses"],"type scopes of the database read")
p("C11","Written XML is always a valid, self-consistent document",
 "Every database that the interchange schema can express can be written, the text is well formed and conforms to the interchange schema, and the reader accepts it. The source-file table gives every file referenced by any scope of the database a distinct identifier, each exactly once, and every file identifier used in the document is in the table.",
 ["inputs"],"all databases the schema can express (at least one instance, one coverpoint per covergroup, one bin per coverpoint), with or without history, and with any valid XML text as names; hit counts are non-negative",
 "Schema conformance and id uniqueness must hold for every database, including degenerate ones.",
 [XW,"src/ucis/xml/__init__.py"],["mandatory attributes/elements emitted for each item","recursive file collection and numbering","placeholder history node"],"written document")
p("C12","YAML input is represented exactly",
 "Every schema-valid YAML coverage document is read into a database with the same covergroups (name, weight), covergroup instances, coverpoints, crosses and bins (name, kind, count, threshold), in document order, and each covergroup type has one coverpoint/cross per distinct name (a cross over the coverpoints of its first occurrence) whose bins are the per-kind, per-name sums over its instances, judged against the largest threshold of the instances. Documents that violate the schema, or contain a cross over an undefined coverpoint, are rejected.",
 ["inputs"],"all YAML documents",
 "Fidelity over all documents, all optional parts present or absent.",
 [Y],["schema validation before use","aggregation of instance bins into type bins","recording of coverpoints and crosses"],"database read")
p("C13","Test history survives XML",
 "Every history node's logical and physical name, kind text, times, time unit, seed, command, arguments, working directory, user, cost, compulsory flag, date, tool category, vendor data, same-tests count and comment are unchanged by writing and reading XML, absent fields stay absent, and a test reads back as passed exactly when its status was OK. The number and order of history nodes are preserved; a database without history gets exactly one placeholder node. The history nodes of any valid document are read with the values of its attributes, in whatever spelling the schema allows.",
 ["inputs"],"all history nodes with any combination of fields set, dates of years 1000 to 9999",
 "Each optional field can be set or unset independently.",
 [XW,XR,"src/ucis/mem/mem_history_node.py","src/ucis/history_node.py"],["attribute per field when set","reader setters per attribute","date conversion both ways"],"history nodes of the database read back")
p("C14","Text reports mirror the computed report",
 "The textual report (both text formatters) prints one line per covergroup, covergroup instance, coverpoint and cross, nested by indentation in report order, with its name and its computed coverage rounded to the documented precision. With details enabled every bin is printed exactly once under its item and kind heading with its count, also when bins are ordered by hit, and the indentation returns to its initial value.",
 ["inputs"],"all reports, details on/off, ordering on/off, any rounding",
 "Completeness and nesting for every tree shape and option setting.",
 ["src/ucis/report/format_rpt_text.py","src/ucis/report/text_coverage_report_formatter.py"],["recursive line emission","indent context manager","bin ordering passes"],"text written")
p("C15","JSON reports mirror the computed report",
 "The JSON report of every database is valid JSON conforming to the published report schema and contains the overall coverage and exactly the covergroups, covergroup instances, coverpoints, crosses and bins of the computed report, in order, with their names, coverages and counts, each bin in the list of its kind. Empty bin lists may be omitted, nothing else is.",
 ["inputs"],"all databases",
 "Completeness for every tree shape, including databases with crosses and with special bin kinds.",
 ["src/ucis/report/format_rpt_json.py","src/ucis/schema/covreport.json"],["object construction per report item","schema-generated classes"],"parsed JSON document")
p("C16","Command-line tools equal the library operations and report failure",
 "The merge, convert and report commands produce exactly what reading each named input, merging them in the given order (or copying, or building the report) and writing the result through the library produces, using the requested formats, with the documented defaults. Input that cannot be read or is not schema-valid, and unknown formats, make the command fail with an error message and a non-zero exit status, and no result is presented as success.",
 ["inputs","fault_sequences"],"all command lines over XML and YAML inputs, plain or gzip-compressed, valid or corrupt",
 "All combinations of inputs, formats and corruptions.",
 ["src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_report.py","src/ucis/__main__.py","src/ucis/rgy/format_rgy.py",XF],["format registry lookup","read, merge, write composition","validation before reading","exception to exit status"],"output files, stdout and exit status")
p("C17","Property access is consistent",
 "For every object and every integer or string property it supports, reading a property after setting it returns the value set, equals what the dedicated accessor returns, and leaves every other property of that object and all other objects unchanged (COVER_GOAL of a scope names the same datum as SCOPE_GOAL). Unsupported integer properties are refused rather than silently accepted.",
 ["inputs","histories"],"all property set/get histories over scopes, covergroups, coverpoints, crosses, history nodes (boolean properties over 0 and 1)",
 "Independence of all property pairs after any history.",
 ["src/ucis/scope.py","src/ucis/cvg_scope.py","src/ucis/covergroup.py","src/ucis/mem/mem_scope.py","src/ucis/mem/mem_cvg_scope.py","src/ucis/mem/mem_covergroup.py","src/ucis/mem/mem_history_node.py","src/ucis/obj.py"],["property dispatch chain over the class hierarchy","one field per property"],"property getters and accessors")
p("C18","The C-style interface equals the object interface",
 "Every function of the C-style interface has exactly the effect and result of the corresponding method, on the given object, or on the database when no object or parent is given. Arguments are passed on unchanged and in the right position.",
 ["inputs"],"all calls of the C-style functions",
 "All functions, all arguments, with and without the optional object.",
 ["src/ucis/__init__.py"],["delegation to object or database methods"],"recorded method calls and results")
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80, x["id"]
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
