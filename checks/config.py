"""What each check runs: the contract units that carry the property, and the bound of the stand-in search."""

UNITS = {
    # unit: (verifier options)
    "scanner": ["--rlimit", "30"],
    "positions": ["--rlimit", "30"],
    "words": ["--rlimit", "30"],
    "inlines": ["--rlimit", "30"],
    "blocks": ["--rlimit", "30"],
    "notes": ["--rlimit", "30"],
    "parser": ["--rlimit", "30"],
    "cli": ["--rlimit", "30"],
}

_PROOF = ("proof: every function the property depends on is verified for all inputs; shims for std and the extractor are trusted. "
          "The search on the real crate is bounded and only adds failing inputs; on a tree the contracts no longer fit the run says so and counts as exploration.")
_SCAN = "every function of the scanner (tokenizer) and the iterator built on it"

PROPS = {
    "A01": dict(units=["scanner"], cases=4_000_000, secs=15, panics=True, about=_SCAN, note=_PROOF),
}
for _id in ("A02", "A03", "A04", "A05", "A06", "A07", "A08", "A09", "A10", "A11", "A12", "A13"):
    PROPS[_id] = dict(units=["scanner"], cases=4_000_000, secs=15, about=_SCAN, note=_PROOF)

PROPS["B01"] = dict(units=["positions"], cases=4_000_000, secs=10, about="order and merging of positions", note=_PROOF)
PROPS["B02"] = dict(units=["words"], cases=4_000_000, secs=15, about="plain text and word count of the tree", note=_PROOF)
_BOUND = ("bounded: documents written from random trees are parsed by the real crate and compared with the tree they were written from.")
PROPS["C01"] = dict(units=[], cases=4_000_000, secs=25, panics=True, about="the parser", note=_BOUND)
for _id in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    PROPS[_id] = dict(units=[], cases=4_000_000, secs=25, about="the parser and the tree it builds", note=_BOUND)
_PART = ("exploration: the functions of the tree's blocks and inline elements are verified for all inputs, the parser that calls them is not; "
         "documents written from random trees are parsed by the real crate and compared with the tree they were written from (bounded).")
for _id in ("C07", "C08"):
    PROPS[_id].update(units=["inlines"], level="exploration", note=_PART)
for _id in ("C02", "C03", "C04", "C05", "C06", "C08", "C09"):
    PROPS[_id].update(units=["blocks"], level="exploration", note=_PART)
_INL = ("exploration: the functions of the tree's blocks and inline elements, and those of the parser that put text, marks, references and macros "
        "on its stack of inline elements and take unclosed marks back, are verified for all inputs; the rest of the parser is not: "
        "documents written from random trees are parsed by the real crate and compared with the tree they were written from (bounded).")
for _id in ("C05", "C07", "C08", "C09"):
    PROPS[_id].update(units=["parser"], note=_INL)
PROPS["C01"].update(units=["blocks"], level="exploration", note=_PART.replace("documents written from random trees are parsed by the real crate and compared with the tree they were written from", "random documents are parsed by the real crate"))
PROPS["D01"] = dict(units=["notes"], cases=4_000_000, secs=15, about="moving footnotes to the end of the document", note=_PROOF,
                    assume=["the tree holds no block kinds that nothing in the crate builds; fewer than 2^64 footnotes"])

_FILES = ("documents of several files, written from random trees into a directory that is made and removed for each case, are parsed by the real crate and compared with the tree they were written from (bounded).")
PROPS["E01"] = dict(units=["parser"], cases=4_000_000, secs=25, level="exploration", about="including files", note="exploration: levels and offsets of headings are verified for all inputs, reading and placing the file is not; " + _FILES,
                    assume=["str::parse::<i8> is an unknown function of the text"])
PROPS["E02"] = dict(units=[], cases=4_000_000, secs=25, about="parts of included files", note="bounded: " + _FILES)
PROPS["C02"].update(units=["parser"], level="exploration", note="exploration: the level of a heading is verified for all tokens and offsets, the nesting of sections is not; "
                    "documents written from random trees are parsed by the real crate and compared with the tree they were written from (bounded).")
PROPS["F01"] = dict(units=[], cases=4_000_000, secs=25, about="HTML output", note="bounded: the templates are not Rust and out of the verifier's reach; "
                    "the HTML of documents written from random trees is compared with one written from the tree by the check.")
# bin: the search runs the command itself
PROPS["G01"] = dict(units=["cli"], cases=4_000_000, secs=15, bin=True, level="exploration", about="where the command writes what",
                    note="exploration: the choice of the output is verified for all arguments, reading, converting and writing are not; "
                    "the command is built from the tree and run in a directory made and removed for each case (bounded).",
                    assume=["PathBuf::set_extension is an unknown function of the name and the extension"])
_STACK = ("exploration: the functions of the tree's blocks, and those of the parser that put a complete block into the open one, the document or an attached list item, are verified for all inputs; "
          "the rest of the parser is not: documents written from random trees are parsed by the real crate and compared with the tree they were written from (bounded).")
for _id in ("C03", "C04"):
    PROPS[_id].update(units=["parser"], note=_STACK)
PROPS["C10"].update(units=["parser"], level="exploration", note="exploration: the functions that take in a definition and put a value in the place of a reference are verified for all inputs, those that call them are not; "
                    "documents written from random trees are parsed by the real crate and compared with the tree they were written from (bounded).",
                    assume=["a reference token is {name} and starts in column 1 or later (properties A04, A09)"])
