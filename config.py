"""What decides each property."""
TRUSTED = {"all": [
    "rustc and the Kani compiler translate the crate faithfully; CBMC and its SAT back end are sound",
    "the target is the little endian, 64 bit machine the proofs are made for",
]}
def g(*features, **kw):
    return dict(features=list(features), **kw)

# arrays as large as a tag table are split into their elements
LARGE = ["--max-field-sensitivity-array-size", "256"]
PROFILE = dict(hooks=["profile", "context"], cbmc=LARGE)
CURVES = dict(curves=True, flags=["-Z", "c-ffi", "--c-lib", "uf.c"])
NOW = "chrono::Utc::now is replaced by a constant date: no property depends on the time of creation of a blank profile"
TEXT = "std::fmt::format is replaced by a constant text: no property depends on the wording of a message"
ENTRIES = "tag tables of {} entries with any content (exhaustive in everything but the number of entries)"

PROPS = {
    "C01": dict(groups=[g("c01"), g("c01", "le")]),
    "C02": dict(groups=[g("c02")]),
    "C03": dict(groups=[g("c03")]),
    "C04": dict(groups=[g("c04")],
                bounded=["arrays of up to 4 elements in the Kani obligations; any length in the Verus unit"]),
    "C05": dict(groups=[g("c05")],
                bounded=["writes which leave a gap: gaps of up to 2 bytes; exhaustive small buffers: up to 4 bytes"]),
    "C06": dict(groups=[g("c06")]),
    "C07": dict(groups=[g("c07")]),
    "C08": dict(groups=[g("c08")]),
    "C09": dict(groups=[g("c09", hooks=["codec"])]),
    "C10": dict(groups=[g("c10", hooks=["codec"])]),
    "C11": dict(groups=[g("c11", **PROFILE)], assumptions=[NOW, TEXT],
                bounded=[ENTRIES.format("0 and 2"), "a stream failing at its first eight accesses"]),
    "C12": dict(groups=[g("c12", **PROFILE)], assumptions=[NOW, TEXT], bounded=[ENTRIES.format("0 and 2")]),
    "C13": dict(groups=[g("c13", **PROFILE)], assumptions=[NOW, TEXT], bounded=[ENTRIES.format("3")]),
    "C14": dict(groups=[g("c14", **PROFILE)], assumptions=[NOW, TEXT],
                bounded=[ENTRIES.format("3"), "lookups in directories of up to 3 tags in the Kani obligations"]),
    "C15": dict(groups=[g("c15", **PROFILE)], assumptions=[NOW]),
    "C16": dict(groups=[g("c16", hooks=["context"])], assumptions=[TEXT],
                bounded=["chains of up to the length the obligations name"]),
    "C17": dict(groups=[g("c17", hooks=["context"])]),
    "C18": dict(groups=[g("c18", **CURVES)]),
    "C19": dict(groups=[g("c19", **CURVES)]),
    "C20": dict(groups=[g("c20", **CURVES)]),
    "C21": dict(groups=[g("c21")], bounded=["tables of up to 10 entries in the Kani obligations; any length in the Verus unit"]),
    "C22": dict(groups=[g("c22", hooks=["context", "plugin"])]),
    "C23": dict(groups=[g("c23", hooks=["codec"])]),
    "C24": dict(groups=[g("c24", **dict(PROFILE, cbmc=None))], assumptions=[NOW]),
    "C25": dict(groups=[g("c25", **dict(PROFILE, cbmc=None))], assumptions=[NOW,
                "File::open and File::create are replaced by functions which succeed or fail arbitrarily"]),
    "C26": dict(groups=[g("c26", cbmc=LARGE)],
                assumptions=["the system calls behind std::fs::File are replaced by a model of a file which may transfer less, be interrupted or fail at each call"],
                bounded=["files of up to 6 bytes, transfers of up to 3 bytes, and a system which misbehaves in its first 3 calls"]),
    "C27": dict(groups=[g("c27", hooks=["profile", "context"], native=30)], assumptions=[NOW,
                "Mutex::lock gives mutual exclusion, and its guard releases the mutex; Lazy initialises once",
                "the file opened is not changed meanwhile; error handlers do not open profiles through the global context themselves",
                "termination of one open is that of the system calls and of loops over at most 100 tags"],
                bounded=["the stress runs (up to 12 threads of up to 20 opens each) on the compiled code sample schedules; they are not counted"]),
    "C28": dict(groups=[g("c28", hooks=["plugin"])]),
}
for c in ("C18", "C19", "C20"):
    PROPS[c]["assumptions"] = [
        "the text verified is extracted from src/plugins/para_curve.rs on every run with f64 replaced by a type whose arithmetic is uninterpreted (extract.py); comments and tests are dropped, nothing else",
        "what holds for every function in the place of +, *, /, powf, exp, ln and log10 holds for those of doubles"]

# Units of the Verus layer, variant by property.
UNITS = {
    "C01": ["stream:be", "stream:le"], "C04": ["stream:be"], "C06": ["null"], "C07": ["stream:be"], "C11": ["opening:C11"], "C12": ["opening:C12"], "C13": ["opening:C13"],
    "C14": ["opening:C14", "lookup"], "C15": ["lookup"], "C16": ["plugins"], "C21": ["curve_set"], "C25": ["opening:C25"], "C26": ["file"], "C27": ["opening:C27"],
}
for c, x in UNITS.items():
    PROPS[c]["verus"] = x

# Obligations with a bound on something the property quantifies over: never counted as proved.
BOUNDED = {
    "C04": r"_array$", "C05": r"c05_write_vec_(gap|small)",
    "C11": r"c11_(tags|fault)", "C12": r"with_tags", "C13": r".", "C14": r".", "C16": r".",
    "C21": r"c21_lookup", "C22": r"c22_clone_(?!of_values)", "C26": r".",
}
for c, x in BOUNDED.items():
    PROPS[c]["bounded_re"] = x
PROPS["C22"]["bounded"] = ["lists of up to two plug-ins"]

COMMON = "Kani decides every obligation on the compiled code of the working tree for all values of its symbolic inputs; unwinding assertions are on. "
NOTES = {
    "C01": "Complete: every value of every width, every fault position, both endianness configurations, through a stream with arbitrary content.",
    "C02": "Complete: loop-free obligations over all values of all helpers.",
    "C03": "Complete: all 2^32 encodings and all 2^64 doubles; the nearest number is the one of x*65536+0.5 rounded down in double arithmetic.",
    "C04": "The XYZ obligations are complete; arrays are proved for any length by Verus on the extracted functions and bounded (4 elements) in Kani.",
    "C05": "Complete: buffers, transfers and positions of any size; only the gap a write beyond the end leaves is bounded.",
    "C06": "Complete induction step from every state, buffers of any length.",
    "C07": "Complete: every position, length and fault.",
    "C08": "Complete: all signatures and slices of any length.",
    "C09": "Complete: all 2^1024 headers.",
    "C10": "Complete: all 2^96 entries.",
    "C11": "All headers (complete, without tags) and all counts above 100; tag tables and fault positions are bounded in Kani and unbounded in the Verus unit.",
    "C12": "All headers, with no and with two tags, in Kani; any number of tags in the Verus unit.",
    "C13": "Any number of tags in the Verus unit; all tables of three entries in Kani.",
    "C14": "Any number of tags in the Verus unit; all tables of three entries in Kani.",
    "C15": "Complete: all n and all directories.",
    "C16": "Chains of any length in the Verus unit; chains of up to three plug-ins with any magic number, version and type in Kani.",
    "C17": "Complete: all codes and handlers, texts of any length.",
    "C18": "Complete over uninterpreted arithmetic: all types, parameters and arguments, on text extracted from the source with f64 replaced.",
    "C19": "Complete over uninterpreted arithmetic: all parameters and arguments, on text extracted from the source with f64 replaced.",
    "C20": "Complete over uninterpreted arithmetic: all parameters and arguments, on text extracted from the source with f64 replaced.",
    "C21": "The built-in table is complete; lookups are proved for tables of any length by Verus and bounded (10 entries) in Kani.",
    "C22": "All default values; clones with user data of any length and two-element lists of plug-ins with any content.",
    "C23": "Complete: every date and time of years 0 to 65535.",
    "C24": "Complete: every field, and every entry of the directory at an arbitrary index.",
    "C25": "Both modes and any outcome of the system calls, which are stubs.",
    "C26": "Any file and any behaviour of the operating system in the Verus unit, which also verifies the loops of the standard library (read_exact, write_all) on the source of the toolchain; a bounded check of the compiled code against a model of the operating system in Kani.",
    "C27": "By the monitor argument: each open works under the lock, whose contract gives it the context in any state the other threads may leave; the result is proved to be a function of the file alone, the lock is taken once and not held on return. That nothing else is shared is checked on the source. The stress runs only look for a failing schedule.",
    "C28": "Complete: all nine variants.",
}
LEVELS = {}
NOT_APPLICABLE = {}
