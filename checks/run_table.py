"""Which checks are registered, and what each one's assurance is."""
DEFAULT_TECH = "explicit TLA+ specification checked with TLC; specification-derived vectors replayed in the code; recorded traces validated by TLC"
TECH = {}
NA = {}
_T = (" Conformance is by replayed specification vectors and TLC-validated traces of the real code under AddressSanitizer with "
      "allocation accounting; inputs beyond the enumerated scope are sampled with boundary-biased generators. Trusts TLC, the C harness and gcc/ASan.")
NOTES = {
    "P01": "The decompressor machine is model-checked exhaustively over every buffer of 5 (thorough 6) octets over {0,1,2,3,'a',pointer} with the limits scaled down: in-bounds reads, strict progress, termination, soundness and completeness against a declarative reading." + _T,
    "P02": "Scanning operators are model-checked against the decompressor on every small buffer; every buffer of up to 4 (5) octets over six classes is replayed at every offset." + _T,
    "P03": "Round trip and validity laws of name text are model-checked over all small names and texts; every text of up to 4 (5) characters over eight classes is replayed." + _T,
    "P04": "The label-sequence algebra is model-checked over all pairs of small names." + _T,
    "P05": "The section/record parser is a TLA+ machine run over every message." + _T,
    "P06": "Grouping by the parser's fold is model-checked equal to grouping said without a fold over all short record lists; the check folds the reported record list, so it is independent of parsing." + _T,
    "P07": "One layout table per type drives acceptance and stored form; its laws are model-checked over products of few values of every field of every type, and those data (whole, short, over, compressed) are run as messages." + _T,
    "P08": "The presentation form of every type is an operator over the same layout table, model-checked printable exactly where the parser would store the data; markers are required exactly where data stops short." + _T,
    "P09": "Reading is specified per field as yes/maybe/no/any with the exact octets; its laws are model-checked over the texts one word away from the printed texts of all small data, all of which are also run; every octet is tried in every kind of field, and every counted thing at its limits." + _T,
    "P10": "Round trip of complete canonical data is a law model-checked over all small data of every type, and demanded of the code on those and on every octet, prefix length and boundary length." + _T,
    "P11": "The EDNS state is a component of the parser machine." + _T,
    "P12": "The text is specified as a function of the parsed content." + _T,
    "P13": "Every proper prefix of each serialization is tried inside the harness." + _T,
    "P14": "Folding is an operator over the layout table, model-checked to touch only letters of names, once; octet-wise safety is required of unparsable data." + _T,
    "P15": "Model-checked: exactly one sorted arrangement exists. Sorted output must be an ordered permutation, independent of the input arrangement; all short lists are run." + _T,
    "P16": "Block ownership is model-checked one allocation at a time with every failure point; histories of object operations are checked step by step against an object machine that accounts every block to its owner, under AddressSanitizer "
           "and again under MemorySanitizer; every history of 3 (4) steps comes from the specification." + _T,
    "P17": "All 65536 codes are exercised for the generic spellings; registered tables are exact." + _T,
    "P20": "The file is specified as its sequence of lines." + _T,
    "P18": "Every address over boundary groups/octets is model-checked to read back exactly and canonically; every set of zero groups is replayed." + _T,
    "P19": "The streaming base64 coder is a machine model-checked against the whole-string specification; every short octet string and text is replayed, whole and split." + _T,
    "P21": "The ring is a machine of two processes with store buffers, model-checked against a monitor of all linearizations; the compiled code runs under a controlled scheduler over every schedule with up to 3 (4) preemptions from every ring state, "
           "and TLC decides each distinct history. Histories under weaker memory models are explored with one delayed store (thorough only)." + _T.replace("AddressSanitizer with", "guard pages with"),
    "P22": "An array heap machine is model-checked to refine the bag; every operation history of 5 (thorough 6) steps is run in the code and accepted or rejected by the bag specification." + _T,
    "P23": "The encoding is specified on bits and model-checked exact, minimal and self-delimiting." + _T,
    "P24": "The checksum is specified as polynomial division; the table walk and the sliced tables are model-checked equal to it." + _T,
    "P25": "A reallocating block machine is model-checked to refine the sequence; every history of up to 4 (5) operations is replayed." + _T,
    "P26": "The reload loop is a machine model-checked to refine the abstract set; every short edit history is run on real files in a scratch directory." + _T,
    "P27": "Ranges are specified by prefix masks and model-checked as intervals; every prefix length is exercised." + _T,
    "P28": "Replacement is specified declaratively and model-checked against a scanning machine; all small cases are replayed." + _T,
    "P29": "Red-black and splay trees are model-checked as machines (rotation by rotation) to refine a sorted set with the depth law; every history of 3 (4) steps is replayed." + _T,
    "P30": "The pointer structure of the doubly linked lists is model-checked as a machine to refine sequences; every history of 4 (5) steps is replayed." + _T,
    "P31": "The published function is specified on 16-bit halves and anchored to published vectors; every length, octet place and alignment is exercised, with guard octets around." + _T,
    "P32": "Handing out is model-checked as a machine with a crash or fault at every step; the real code runs in a scratch directory with each rename, open, scan and stat call failing or ending the process in turn." + _T,
    "P33": "Every short script of short reads, interruptions, ends and errors is replayed through a stand-in for the system call." + _T,
    "P34": "Each helper is specified as a function; every octet and all boundary values are exercised. Blank, signed or overflowing environment numbers are unspecified." + _T,
    "P35": "Sequential semantics of every operation in TLA+; concurrent sums by real threads, judged by conservation." + _T,
    "P37": "The limiter is a machine model-checked with a caller and a system that are early or late as they like; the code runs on a clock of ours, every return time exact." + _T,
    "P38": "Processing a command line is a machine over words; its laws (a word at a time, prefixes, exclusion, mandatory) are model-checked over all short lines of small tables, which are all run; lines built to fit random tables, files and environment follow." + _T,
    "P39": "The reader is a machine over lines carrying origin, TTL and owner; its laws are model-checked over all files of up to 4 (5) lines, and every file of up to 3 (4) lines is run. It is compiled over a stand-in for ldns (not installed) with a small line syntax: the syntax of lines is not covered, what the reader does with them is." + _T,
    "P36": "Each tool is run whole in a child process; its output and status are specified as functions of the input through the same parser and text operators as P05, P12, P13 and P14." + _T,
}
