"""Which contracts decide which property."""
import re

ALL_TREES = ["tree", "bitset", "bytemap", "array", "hash", "lib"]

# methods of a tree type
METHOD = {
    "from_monad": ["P01", "P08"], "is_monad": ["P08"], "len_hint": ["P08", "P12"], "into_monad": ["P08"],
    "min_val": ["P05"], "max_val": ["P05"], "min_val_mut": ["P05", "P09"], "max_val_mut": ["P05", "P09"],
    "find": ["P02"], "find_mut": ["P02", "P09"],
    "predecessor": ["P03"], "predecessor_mut": ["P03", "P09"],
    "successor": ["P04"], "successor_mut": ["P04", "P09"],
    "insert": ["P01"], "remove": ["P06"], "remove_min": ["P07"], "remove_max": ["P07"],
}
COLL = {"create": ["P16"], "get": ["P16"], "get_mut": ["P16"], "insert_key": ["P16"], "remove_key": ["P17"], "maybe_remove_key": ["P17"]}


def props_of(label):
    """The properties a function's contract states (a failed obligation of it violates them)."""
    sel, _, fn = label.rpartition("::")
    if not sel:
        sel, fn = label, label
    if label.startswith(("laws_", "client_")):
        return ["P25"]
    if label.startswith("clones_"):
        return ["P19"]
    fn = fn.split(" ")[0]
    p = []
    if sel.startswith("VebTree for "):
        p += METHOD.get(fn, [])
        if "SizedVebTree" in sel: p += ["P10"]
        if "ByteSet" in sel: p += ["P20"]
        if "Box" in sel or "BTreeMap" in sel: p += ["P21"]
    elif sel.startswith("TreeCollection for "):
        p += COLL.get(fn, [])
    elif sel.startswith("TreeList for ") or sel.startswith("OptionArray"):
        p += ["P17"] if "remove" in fn else ["P16"]
        if fn == "get_mut" or fn == "create": p += ["P17"]
        if sel.startswith("OptionArray"): p += ["P25"]
    elif sel.startswith("List for ") or sel.startswith("trait List"):
        p += {"from_monad": ["P01"], "insert_value": ["P01"], "remove_value": ["P06", "P07"], "get": ["P02"], "get_mut": ["P09"]}.get(fn, ["P08"])
    elif "for Iter" in sel:
        p += ["P12"] if fn == "size_hint" else ["P11"]
    elif sel.startswith("Clone for MaybeBorrowed"):
        p += ["P22"]
    elif re.match(r"Clone for U[24]$", sel):
        p += ["P13"]
    elif sel.startswith("Clone for "):
        p += ["P19"]
    elif "MaybeBorrowed" in sel:
        p += ["P22"]
    elif sel == "ByteSet" or sel.startswith("BitAndAssign<ByteSet>"):
        p += ["P20"]
    elif sel == "SizedVebTree" or "ONE" in label:
        p += ["P10"]
    elif "VebKeyRef" in sel:
        p += ["P13"]
    elif sel.startswith("SizedVebKey"):
        p += ["P15"]
    elif sel.startswith("VebKey "):
        p += ["P13", "P14"]
    elif re.search(r"\b(Partial)?Ord for U[24]", sel) or re.search(r"\b(Partial)?Eq for U[24]", sel):
        p += ["P14"]
    elif re.search(r"\bU[24]\b", sel):
        p += ["P23"]
    if re.match(r"(Sized)?VebKey for [ui](8|16|32|64)$", sel):
        p += ["P25"]
    return p


# messages of the verifier which say that the code may panic
PANIC = re.compile(r"precondition not satisfied|possible arithmetic|possible division|possible bit shift|index out of bounds|assertion failed|unreachable|decreases", re.I)

PROPS = {
    "P01": ALL_TREES, "P02": ALL_TREES, "P03": ALL_TREES, "P04": ALL_TREES, "P05": ALL_TREES,
    "P06": ALL_TREES, "P07": ALL_TREES, "P08": ALL_TREES, "P09": ALL_TREES,
    "P10": ["lib"], "P11": ["iter"] + ALL_TREES, "P12": ["iter"] + ALL_TREES,
    "P13": ["keys"], "P14": ["keys"], "P15": ["keys"],
    "P16": ["bytemap", "bitset", "array", "hash"], "P17": ["bytemap", "bitset", "array", "hash", "absent"],
    "P18": ALL_TREES + ["iter", "keys"],
    "P19": ["tree", "bitset", "instances"], "P20": ["bitset"], "P21": ["lib"], "P22": ["iter"], "P23": ["keys"],
    "P24": ["steps"], "P25": ["instances", "array"],
}

# parts of the search which only one property needs
FEATURES = {"P24": ["steps"]}

# what the search on the real crate looks at for a property which is about how the parts fit together
SEARCH = {"P25": ["P25", "P15", "P14", "P13"]}

BOUNDED_ONLY = {p for p, us in PROPS.items() if not us}


def level(prop):
    return "exploration" if prop in BOUNDED_ONLY else "proof"


ASSUMPTIONS = [
    "user-supplied Ord, Hash, Clone and Borrow implementations are lawful",
    "a tree held in memory has fewer than usize::MAX elements",
    "the standard and third-party containers (VecDeque, BTreeMap, hashbrown::HashMap, GenericArray, Vec) meet the contracts stated for them",
    "Verus, Z3 and rustc are sound",
    "the extractor's rewrites E2-E27 (DESIGN.md) preserve meaning",
]

NOTE = {}
