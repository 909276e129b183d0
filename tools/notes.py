"""Words for MANIFEST.json."""
BOTH = ("TLA+ model checking of %s (TLC), every terminal behaviour of which is replayed into the library, and "
        "TLA+ trace validation of %s recorded from the library")
SCOPE = "every struct of one or two units of the '%s' alphabet of CodecMC"


def codec(scope, what):
    return BOTH % (SCOPE % scope, "random histories about " + what)


def expr(scopes, what):
    return BOTH % ("every expression text of bounded length over the '%s' alphabets of ExprMC" % scopes, "random expressions about " + what)


TECHNIQUE = {
    "default": "TLA+ trace validation: histories recorded from the real library are checked by TLC against the codec machine (Codec.tla)",
    "C01": codec("mix", "packing and unpacking"), "C02": codec("mix", "unpacking and packing again"),
    "C03": codec("mix", "sizes and cut inputs"), "C04": codec("layout", "layout"), "C05": codec("orders", "byte orders"),
    "C06": codec("bits", "bit fields"), "C07": codec("counts", "counters"), "C08": codec("mix", "inputs cut at every place"),
    "C10": codec("bools", "booleans"), "C11": codec("fixed", "fixed-size strings and slices"), "C12": codec("skips", "skips and ignored fields"),
    "C13": codec("conds", "conditions"), "C14": codec("sizes", "size and bits expressions"), "C15": codec("switches", "switches"),
    "C16": codec("whiles", "while slices"), "C17": codec("inouts", "in and out expressions"), "C19": codec("customs", "custom codecs"),
    "C23": codec("mix", "packing twice and changing values and buffers"), "C24": codec("mix", "values and pointers"),
    "C26": expr("syntax, groups", "grouping"), "C27": expr("ints", "integer operations"), "C28": expr("floats, ops", "comparison and logic"),
    "C29": expr("consts", "untyped constants"), "C30": expr("text", "malformed text"), "C31": expr("paths, access", "names, members, indexes and calls"),
    "C33": expr("numbers, strings", "literals"),
    "C09": "TLA+ trace validation of random histories with hostile input, destinations and tags: a panic, hang, crash or written input is a step no behaviour of the codec machine has",
    "C18": "TLA+ trace validation of histories about root and parent references: the codec machine (Codec.tla) says to which frame of its stack each points",
    "C20": "TLC exhausts all interleavings of the caches' design (Caches.tla); TLA+ trace validation of concurrent histories recorded under the race detector",
    "C21": "TLA+ trace validation of long histories over many types in one process: the codec machine has no memory between calls",
    "C22": "TLC invariant DestFree and replay of every encoding of small structs into every other value; TLA+ trace validation of decodings into destinations that hold random old contents (old contents are part of the machine's state)",
    "C25": "TLA+ trace validation: TagSyntax.tla reads the tag text itself and gives the schema the codec machine runs on; random spellings and malformed options",
    "C32": "TLA+ trace validation of the bits functions called from tag expressions, against their definition on bit sequences (BV.tla)",
    "C35": BOTH % ("every struct of one or two units of six alphabets of CodecMC with expressions disabled (every expression of the schema is then an error, Without in Codec.tla)",
                   "histories in whose course EnableExprBeta is called, one process each,"),
    "C36": BOTH % ("every type up to a depth and the sameness of nodes in every graph of two recursive types (TypesMC.tla)",
                   "the answers about random and recursive types, pairs of them and rows of resolvers (TypesTrace.tla)"),
    "C34": "TLA+ trace validation of PNG files read and written by formats/png, against the chunk grammar run by the codec machine",
}
MC = (" Complete for the enumerated scope; beyond it a sample drawn from VERIF_SEED. Trusts the harness's projection of Go values and the "
      "specification's reading of the documentation.")
TV = ("TLC decides every recorded call (status, value, bytes, size, destination); complete for the histories made, a sample drawn from VERIF_SEED. "
      "Trusts the harness's projection of Go values and the specification's reading of the documentation.")
LEVEL_NOTE = {p: ("The specification's own invariants and the library's results agree on the whole enumerated scope." + MC) for p in TECHNIQUE if "model checking of" in TECHNIQUE[p]}
LEVEL_NOTE.update({p: TV for p in TECHNIQUE if p not in LEVEL_NOTE})
LEVEL_NOTE["C20"] = ("The model covers three goroutines and three types exhaustively and shows the cache protocol sound; the library's schedules are those the Go scheduler "
                     "gives under -race, with fresh types raced from a common start.")
NOT_APPLICABLE = {}
