"""What is trusted, assumed and left to bounded stand-ins, per property (copied into the evidence)."""
TRUSTED = ["pyvc: the translation of the Python subset into verification conditions (pyvc/exec.py, pyvc/expr.py) and its model of Python's values, lists, dicts and objects (pyvc/values.py)",
           "z3", "the induction schema used for fold lemmas (base and step are discharged by z3)",
           "pyvc/models.py and the model classes next to the contracts: what an opaque source object, destination object, document element or library call is"]

_SRC = "a source database is a tree whose attributes are pure functions of the object (what the in-memory database returns is the subject of C08)"
_DST = "a destination object records each creation call with its arguments; that the in-memory database stores exactly these is the subject of C08"
ASSUMPTIONS = {
    "*": ["no monkey patching, no subclass overrides outside /repo/src, no concurrent modification while a function runs",
          "Python integers are mathematical integers (they are); float results are compared as exact reals up to the documented rounding"],
    "C01": [_SRC, _DST, "bins that no merge function asks for (other cover item kinds) do not belong to the property"],
    "C02": [_SRC, _DST, "names are compared as opaque values: equal text is equal name"],
    "C03": ["source scopes and bins are opaque: any write to one, any creation call on one and any source object passed into a creation call is refused by the model, so the function would be undecided or fail", _DST,
            "source locations are immutable records shared between source and destination"],
    "C04": [_SRC, _DST, "permutations are generated by exchanging neighbours"],
    "C05": [_SRC], "C06": [_SRC, "weights are non-negative"], "C07": [_SRC],
    "C08": ["the native-library backend (ucis.lib, ctypes) cannot be loaded here and is not covered"],
    "C09": [_SRC, _DST, "lxml: SubElement/attrib/text build the tree and xpath/get/text read it as pyvc/contracts/xmlmodel.py states; serialising and parsing a tree returns the same tree",
            "parsing what was serialised gives the same tree, an empty text being no text; iter(tag) lists the element itself and everything below it in document order (rtrip.def_nd, def_child)",
            "a bin's kind is one of the three kinds of functional coverage bins, and a cross crosses coverpoints of its own covergroup instance"],
    "C10": [_DST, "lxml as in pyvc/contracts/xmlmodel.py; the document satisfies the schema (required attributes present; text may be absent)"],
    "C11": [_SRC, "lxml as in pyvc/contracts/xmlmodel.py", "str of an int, of a finite float, of a date in ISO form and of a Decimal formatted with f belong to the XML Schema types integer, double, dateTime and decimal; numbers of a history node are finite"],
    "C12": ["python_jsonschema_objects builds plain records from a document that jsonschema accepted (getCoverageNS, getCoverageSchema are assumed contracts)", "PyYAML: yaml.load returns the parsed document or raises YAMLError", "jsonschema.validate decides validity", _DST],
    "C13": ["lxml as in pyvc/contracts/xmlmodel.py", "datetime.strptime/strftime with one format are inverse on texts of that format; an ISO date has 19 characters and no blanks; format(Decimal(t), 'f') denotes the same number as t"],
    "C14": ["the report tree is plain data (built by the builder, C05-C07)"],
    "C15": ["python_jsonschema_objects: the classes built from covreport.json behave as pyvc/contracts/js.py states"],
    "C16": ["argparse as modelled in pyvc/contracts/cmd.py (its own error exits included)", "the content of an input file does not change while it is read", "what the XML and YAML parsers make of the bytes of a file is a function of these bytes (their own detection of the encoding)",
            "lxml.etree.XMLSchema decides validity", "registered formats are read and written through the interface objects; what they do is C09-C13"],
    "C17": ["property tables are those of the in-memory backend"],
    "C18": ["methods of the object interface are opaque: the contract fixes which method is called on which object with which arguments, and that its result is returned"],
}
BOUNDED = {
    "C09": ["serialising the element tree to text and parsing it again: run-time contract (whole round trip) on generated databases, bounded by size and time"],
    "C11": ["well-formedness of the written text, the values of attributes that carry no coverage (key, line, inlineCount, from, to, writtenTime), those of the placeholder history node and the namespace of the root: run-time contract on generated databases"],
    "C12": ["YAML parsing, schema validation and the generated classes: run-time contract on generated documents, valid and invalid"],
    "C13": ["serialisation of the written attributes to text and back: run-time contract on generated histories"],
    "C15": ["serialisation of the report objects to JSON text and its schema: run-time contract"],
    "C16": ["process exit status of the real commands on real files: run-time contract in a scratch directory"],
    "C18": ["ucis_Time (a constant -1 in the current tree) has no corresponding method and no contract"],
}
