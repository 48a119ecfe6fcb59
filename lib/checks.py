"""The checks: which harness decides which property, with which bounds."""
import copy


class H:
    def __init__(self, name, src, repo=(), defs=(), unwind=10, unwind_max=None, unwindset=(), flags=(), timeout=240,
                 mem_gb=10, malloc_fail=False, solver="cadical", bounds="", stubs=(), tier="quick", thorough=None,
                 entry="harness", conf=("HAVE_LZLIB_DEVEL", "WITH_ZSTD"), object_bits=10, nobody_ok=(),
                 native_libs=(), validate=True, ub_strict=False, weight=1, mem=False, ren=(), cdefs=(), own_unwind=0, fn_unwind=None,
                 engine="cbmc", steps=3000000, no_reach=()):
        self.name, self.src, self.repo, self.defs = name, src, list(repo), list(defs)
        self.unwind, self.unwind_max = unwind, unwind_max or unwind * 2
        self.unwindset, self.flags, self.timeout, self.mem_gb = list(unwindset), list(flags), timeout, mem_gb
        self.malloc_fail, self.solver, self.bounds, self.stubs = malloc_fail, solver, bounds, list(stubs)
        self.tier, self.thorough, self.entry, self.conf = tier, thorough, entry, list(conf)
        self.object_bits, self.nobody_ok = object_bits, list(nobody_ok)
        self.native_libs, self.validate, self.ub_strict, self.weight = native_libs, validate, ub_strict, weight
        self.mem, self.ren, self.cdefs = mem, list(ren), list(cdefs)
        self.own_unwind, self.fn_unwind = own_unwind, fn_unwind or {}
        self.engine, self.steps, self.no_reach = engine, steps, list(no_reach)
        self.prop = None

    def labels(self):
        """reachability witnesses this variant of the harness must show"""
        import os, re, subprocess
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        src = os.path.join(root, "harness", self.src)
        out = subprocess.run(["cpp", "-P", "-nostdinc", "-w", "-undef", "-imacros", "/dev/null"] + ["-D" + d for d in self.defs] + ["-x", "c", "-"],
                             input="\n".join(l for l in open(src) if not l.lstrip().startswith("#include")), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        return sorted(set(re.findall(r'VP_REACH\("([^"]*)"\)', out)) - set(self.no_reach))

    def in_tier(self, tier):
        return tier == "thorough" or self.tier == "quick"

    def for_tier(self, tier):
        h = copy.copy(self)
        if tier == "thorough" and self.thorough:
            for k, v in self.thorough.items():
                setattr(h, k, v)
            if "unwind" in self.thorough and "unwind_max" not in self.thorough:
                h.unwind_max = h.unwind * 2
            if "timeout" not in self.thorough:
                h.timeout = 3000
        return h


class P:
    def __init__(self, level_note, harnesses, level="model_checking", assumptions=(), technique=None):
        self.level_note, self.harnesses, self.level = level_note, harnesses, level
        self.assumptions = list(assumptions)
        self.technique = technique or "bounded symbolic model checking of the C sources (CBMC/SAT), counterexamples replayed natively"


PROPS = {}

PROPS["C01"] = P(
    "All byte values within the stated lengths.",
    [
        H("be", "c01_be.c", ["drpm_utils.c"], unwind=10, bounds="all 16/32/64-bit values"),
        H("hex", "c01_hex.c", ["drpm_utils.c"], unwind=8, bounds="arrays of 0..3 bytes, strings of 0..6 characters", defs=["N=3"],
          thorough=dict(defs=["N=6"], unwind=14)),
        H("digest", "c01_digest.c", ["drpm_utils.c"], unwind=70, unwind_max=140, bounds="digest strings of 0..68 characters, all byte values",
          nobody_ok=[]),
    ])

RW = ["open", "close", "read", "lseek"]
S_RPM = "librpm access (drpm_rpm.c) is replaced by an object whose calls may fail"
S_DEC = "the decompressor (drpm_decompstrm.c, decided separately by Z02) hands out arbitrary bytes and may fail at any read"

PROPS["R01"] = P(
    "Every value of every field; up to 22 successful reads from the compressed part (any counts may be declared); failing reads, allocations and library calls at every point.",
    [
        H("read", "r01_read.c", ["drpm_read.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, ren=RW, unwind=13, unwind_max=30, weight=5,
          stubs=[S_RPM, S_DEC], bounds="at most 22 successful reads from the delta stream"),
    ])

PROPS["R02"] = P(
    "Every value of every field; up to 22 successful reads from the compressed part.",
    [
        H("consistent", "r01_read.c", ["drpm_read.c", "drpm_deltarpm.c", "drpm_utils.c"], defs=["CONSISTENCY"], mem=True, ren=RW, unwind=13, unwind_max=30, weight=5,
          stubs=[S_RPM, S_DEC], bounds="at most 22 successful reads from the delta stream"),
    ])

PROPS["C02"] = P(
    "All 32-bit identifiers, all 16-bit methods and all levels 0-255; builds with and without zstd.",
    [
        H("comp", "c02_comp.c", ["drpm_deltarpm.c"], unwind=10, bounds="all values; zstd build"),
        H("comp_nozstd", "c02_comp.c", ["drpm_deltarpm.c"], unwind=10, conf=["HAVE_LZLIB_DEVEL"], bounds="all values; build without zstd"),
    ])

WR = ["strlen", "open", "creat", "close", "read", "write", "lseek"]
S_CID = "the (de)compressor is the identity (streams are decided by Z01/Z02)"
_w = dict(src="w01_roundtrip.c", repo=["drpm_write.c", "drpm_read.c", "drpm_deltarpm.c", "drpm_utils.c"], ren=WR, unwind=420, unwind_max=420,
          stubs=[S_CID, "a file is a byte buffer; the package part of a standard delta is a four byte stand-in"],
          bounds="names 0-3 characters, sequence 16-18, lead/signature 112-114, parameters and add data 0-2 bytes, 0-2 copies of each kind, pieces of 0-2 bytes")
PROPS["W01"] = P(
    "All field values; lengths and counts up to 2 (beyond the format's minimum); each version and type.",
    [H(f"{n}_{k}", defs=d + [f"PROF={k}", f"COMP={(i + 2 * k) % 6}"], flags=["--max-field-sensitivity-array-size", "512"],
       # CBMC loses pointers to pointers read from a union: give the solver separate members
       cdefs=["union=struct"] if "PTRS=1" in d else [], **_w)
     for i, (n, d) in enumerate([("std3", ["VERSION=3"]), ("std3p", ["VERSION=3", "PTRS=1"]), ("std2", ["VERSION=2", "PTRS=1"]), ("std1", ["VERSION=1"]),
                  ("rpmonly", ["VERSION=3", "RPMONLY=1", "PTRS=1"])]) for k in (0, 1, 2, 3)])

PROPS["W02"] = P(
    "All 64-bit external and internal lengths, versions 1-3, both types.",
    [H("lengths", "w02_lengths.c", ["drpm_write.c", "drpm_deltarpm.c", "drpm_utils.c"], ren=WR[1:], unwind=12, unwind_max=130, stubs=[S_RPM, S_CID],
       bounds="all 64-bit lengths; one or two pieces of internal data")])

PROPS["R03"] = P(
    "All scalar values; texts up to 3 characters, binary fields up to 3 bytes (sequence 16-18), arrays of up to two pairs; every tag value; every query function; failing allocations.",
    [
        H(f"query_{t}{n}" + ("_oom" if o else ""), "r03_query.c", ["drpm.c", "drpm_read.c", "drpm_utils.c"], defs=[f"OOM={o}", f"LEN={n}", f"RPMONLY={t}"], mem=True,
          ren=["strlen", "strcpy"], unwind=40, unwind_max=80, weight=3, bounds="lengths and counts fixed per variant (0 to 3), all values")
        for t, n, o in [(0, 0, 0), (0, 1, 0), (1, 2, 0), (1, 3, 0), (0, 3, 1), (1, 1, 1)]
    ])

PROPS["O01"] = P(
    "All argument values; texts of 0-2 characters; up to three arbitrary calls on one set of options, one on the other, then copy and destroy; failing allocations; builds with and without zstd.",
    [
        H("model", "o01_options.c", ["drpm_options.c"], defs=["OOM=0"], mem=True, unwind=8, bounds="3 calls", thorough=dict(defs=["OOM=0", "CALLS=4"])),
        H("model_oom", "o01_options.c", ["drpm_options.c"], defs=["OOM=1", "CALLS=2"], mem=True, unwind=8, bounds="2 calls, failing allocations", thorough=dict(defs=["OOM=1", "CALLS=3"])),
        H("model_nozstd", "o01_options.c", ["drpm_options.c"], defs=["OOM=0", "CALLS=1"], mem=True, unwind=8, conf=[], bounds="1 call, build without optional compressors"),
    ])

S_HASH = "the match search (drpm_search.c, decided separately by M03) reports any true match at or after the scan start, or none"
S_CMP = "the compressor (drpm_compstrm.c, decided separately by Z01) is the identity and may fail"
SYM = "path-wise symbolic execution of the LLVM bitcode of the C sources (vpsym), every branch and assertion decided by Z3; counterexamples replayed natively"
PROPS["M01"] = P(
    "All contents of old data of 0-5 bytes and new data of 1-6 bytes, every match sequence allowed by the search contract; with and without add block; failing allocations and library calls.",
    [
        H(f"diff_{'add' if a else 'noadd'}{o}{n}" + ("_oom" if oom else ""), "m01_diff.c", ["drpm_diff.c", "drpm_utils.c"],
          defs=[f"ADDBLK={a}", f"OLD={o}", f"NEW={n}", f"OOM={oom}", "DRPM_VERIFY_BUFFER_SIZE=2"], mem=True, engine="sym", stubs=[S_HASH, S_CMP],
          bounds=f"{o} bytes old, {n} bytes new", weight=o * n, timeout=400,
          thorough=dict(defs=[f"ADDBLK={a}", f"OLD={o + 1 if o else 0}", f"NEW={n + 1}", f"OOM={oom}", "DRPM_VERIFY_BUFFER_SIZE=2"]))
        for a, o, n, oom in [(1, 4, 5, 0), (0, 5, 6, 0), (1, 5, 4, 0), (0, 0, 2, 0), (1, 0, 2, 0), (1, 3, 4, 1), (0, 3, 4, 1)]
    ], technique=SYM)

PROPS["M03"] = P(
    "Index: old data of 0-13 bytes, up to 2 of them with any value. Search: any index over the old data, all contents of old data of 0-40 bytes, three kinds of new data of 0-44 bytes, lengths, scan starts and last offsets forked over. Sizes are bounded; the block size is 4 instead of 16 and the index has 2 or 3 entries so that they collide.",
    [
        H(n, "m03_search.c", ["drpm_utils.c"], defs=["DRPM_VERIFY_HSIZESHIFT=2", "DRPM_VERIFY_HT_LEN=3"] + d, mem=True, engine="sym", bounds=b, weight=3, timeout=300, steps=400000000)
        for n, b, d in [
            ("index", "old data of 0-13 bytes", ["MODE=0", "OL=13", "SYMB=2", "OOM=0"]),
            ("index_oom", "old data of 0-5 bytes", ["MODE=0", "OL=9", "SYMB=0", "OOM=1"]),
            ("short", "old data of 0-6 bytes, new data of 0-6 bytes", ["MODE=1", "NLEN=0,1,3,4,5,6", "OLEN=0,3,4,6", "KINDS=2", "HT=2", "PLACES=0,1,2,3", "LAST=0,1,(size_t)-1", "SCAN=0,1,nl", "FOUND=0"]),
            ("long", "old data of 40 bytes, new data of 44 bytes", ["MODE=1", "NLEN=40", "OLEN=36,38", "KINDS=1", "HT=2", "PLACES=0,1,3", "LAST=100", "SCAN=0", "FOUND=1"]),
            ("zeros", "old data of 36 bytes, new data of 40 equal or mostly equal bytes", ["MODE=1", "NLEN=40", "OLEN=36", "KIND0=1", "KINDS=2", "HT=2", "PLACES=0,1,3", "LAST=100", "SCAN=0", "FOUND=1"]),
            ("diag", "old data of 36 bytes, new data of 40, last offset meeting the match", ["MODE=1", "NLEN=40", "OLEN=36", "KINDS=1", "HT=2", "PLACES=0,2", "LAST=0,1,(size_t)-1,(size_t)-30", "SCAN=0,2", "FOUND=1"]),
            ("later", "old data of 37 bytes, new data of 60, scan starting inside", ["MODE=1", "NLEN=60", "OLEN=37", "KINDS=1", "HT=2", "PLACES=0,3", "LAST=100", "SCAN=11,19,23,60", "FOUND=1"]),
        ]
    ], technique=SYM)

PROPS["M02"] = P(
    "All 64-bit offsets and lengths up to the bounds, two regions.",
    [H(n, "m02_copies.c", [], bounds=b, defs=d, engine="sym", timeout=400, thorough=dict(timeout=3000, defs=d2))
     for n, b, d, d2 in [
         ("offsets", "offsets up to 6 GiB, old lengths below 2 GiB, new lengths up to 2 GiB", ["OFF=6", "LEN=1", "NLEN=2"], ["OFF=12", "LEN=1", "NLEN=2"]),
         ("lengths", "offsets up to 3 GiB, old and new lengths up to 5 GiB", ["OFF=3", "LEN=5", "NLEN=5"], ["OFF=6", "LEN=8", "NLEN=8"]),
     ]], technique=SYM)

S_CMPS = "the compression stream (drpm_compstrm.c, decided separately by Z01) logs what it is given and delivers arbitrary output at any time"
S_CLIB = "the compression libraries are modelled by their documented contract (any portions, failures at any call where the documentation allows them)"
S_DLIB = "the decompression libraries are modelled by their documented contract (any portions, corruption or lack of memory at any call)"
_M = ["none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"]
PROPS["Z01"] = P(
    "All contents of three pieces of 0-3 bytes (or integers), compressed data of 0-5 arbitrary bytes in output chunks of 2, all portions the compression libraries may choose, all levels; every method, to a file and to memory; single writes of up to 6 GiB.",
    [H(f"{m}" + ("_fail" if f else ""), "z01_comp.c", ["drpm_compstrm.c", "drpm_utils.c"],
       defs=[f"METHOD={i}", f"FAIL={f}", "HUGE=0", "DRPM_VERIFY_CHUNK_SIZE=2"] + (["WRITES=2", "OMAX=3" if m == "lzip" and f else "OMAX=4" if m == "lzip" else "OMAX=5"] if f or m in ("gzip", "lzip") else ["WRITES=3"]),
       mem=True, ren=["write"], engine="sym", stubs=[S_CLIB], timeout=400, no_reach=["done"] if i == 7 or (m == "lzip" and f) else [],
       bounds="input 0-12 bytes, output 0-5 bytes")
     for i, m in enumerate(_M + ["unknown"]) for f in (0, 1)] +
    [H(f"{m}_huge", "z01_comp.c", ["drpm_compstrm.c", "drpm_utils.c"], defs=[f"METHOD={i}", "FAIL=0", "HUGE=1", "WRITES=1", "OMAX=2", "DRPM_VERIFY_CHUNK_SIZE=2"],
       mem=True, ren=["write"], engine="sym", stubs=[S_CLIB], timeout=400, no_reach=["done"], bounds="one write of 1 byte to 6 GiB")
     for i, m in enumerate(_M) if i], technique=SYM)

PROPS["Z02"] = P(
    "All contents of compressed data of 8-9 bytes (read in chunks of 4), any decompressed contents of 0-5 bytes, two reads of 0-3 bytes and the rest, all portions the decompression libraries may choose; every method, from a file or from memory.",
    [H(f"{m}" + ("_fail" if f else ""), "z02_decomp.c", ["drpm_decompstrm.c", "drpm_utils.c"],
       defs=[f"METHOD={i}", f"FAIL={f}", "SHORT=0", "DRPM_VERIFY_CHUNK_SIZE=4", "READS=%d" % (1 if f or m == "lzip" else 2)] + (["OMAX=2" if m == "lzip" else "OMAX=3", "NMAX=8"] if f else ["OMAX=3", "NMAX=8"] if m == "lzip" else []),
       mem=True, ren=["read", "lseek"], engine="sym", stubs=[S_DLIB], timeout=400, no_reach=(["corrupt data"] if i == 0 else []) + (["several reads"] if f or m == "lzip" else []),
       bounds="compressed 8-9 bytes, decompressed 0-5 bytes")
     for i, m in enumerate(_M) for f in (0, 1)], technique=SYM)

PROPS["Z03"] = P(
    "Headers of 0-4 bytes, up to four writes of 0-3 bytes each, all contents, compressor output of 0-2 arbitrary bytes delivered at any time; failing allocations, writes and streams.",
    [H("wrapper" + ("_fail" if f else ""), "z03_wrapper.c", ["drpm_write.c", "drpm_deltarpm.c", "drpm_utils.c"], defs=[f"FAIL={f}", "WRITES=4"],
       mem=True, ren=["write"], engine="sym", stubs=[S_CMPS], bounds="header 0-4 bytes, 4 writes") for f in (0, 1)], technique=SYM)

S_MD5 = "MD5 is an opaque function: what is fed to it is compared, its value is arbitrary"
_s = dict(repo=["drpm_apply.c", "drpm_utils.c"], mem=True, engine="sym", stubs=[S_MD5], timeout=300)
PROPS["S02"] = P(
    "All sequences of up to 3 bytes (6 numbers) over up to 3 files; numbers of up to 30 groups (90 bits); all types, sizes and devices of up to 2 files; both content digests; failing allocations and digests.",
    [H("order2", "s02_expand.c", defs=["FILES=3", "SEQ=2"], bounds="sequences of 0-2 bytes, 0-3 files", thorough=dict(defs=["FILES=4", "SEQ=2"]), **_s),
     H("order3", "s02_expand.c", defs=["FILES=2", "SEQ=3"], bounds="sequences of 0-3 bytes, 0-2 files", thorough=dict(defs=["FILES=3", "SEQ=3"]), **_s),
     H("long", "s02_expand.c", defs=["FILES=1", "SEQ=15", "LONGNUM=27"], no_reach=["expanded", "mismatch"], bounds="sequences of 15 bytes starting with a number of 27 groups or more", **_s),
     H("types", "s02_expand.c", defs=["FILES=1", "SEQ=1", "TYPES=1"], bounds="one file of any type, sequences of 0-1 bytes", **_s),
     H("types256", "s02_expand.c", defs=["FILES=1", "SEQ=1", "TYPES=1", "ALGO=8"], bounds="as types, SHA-256", **_s),
     H("fail", "s02_expand.c", defs=["FILES=1", "SEQ=1", "TYPES=1", "FAIL=1"], bounds="as types, failing allocations and digest calls", **_s)], technique=SYM)

PROPS["P01"] = P(
    "All header field values when writing; all texts of 110 bytes when reading.",
    [H("write", "p01_write.c", ["drpm_make.c", "drpm_utils.c"], ren=["sprintf", "snprintf"], engine="sym", stubs=["sprintf is modelled for the conversions used"], bounds="all field values"),
     H("read", "p01_read.c", ["drpm_make.c", "drpm_utils.c"], unwind=14, unwindset=["nd_bytes.0:112"], bounds="all texts of 110 bytes")])

_q = dict(src="s01_seq.c", repo=["drpm_utils.c"], mem=True, engine="sym", timeout=300)
PROPS["S01"] = P(
    "Up to 12 runs far apart (many bytes of sequence); up to two runs of positions starting anywhere below 2^31, up to three runs below 64, in any order; run lengths of 1-3 (first) and 1-2; a run of up to 70; failing allocations. The decoder is the reference which S02 decides expand_sequence against.",
    [H("runs", defs=["RUNS=2", "LEN=3", "MAXPOS=16", "MAXVAL=0x7fffff00", "FAIL=0"], bounds="0-2 runs anywhere", thorough=dict(defs=["RUNS=3", "LEN=3", "MAXPOS=16", "MAXVAL=0x7fffff00", "FAIL=0"]), **_q),
     H("many", defs=["RUNS=3", "LEN=2", "MAXPOS=16", "MAXVAL=64", "FAIL=0"], bounds="0-3 runs below 64", thorough=dict(defs=["RUNS=5", "LEN=2", "MAXPOS=16", "MAXVAL=64", "FAIL=0"]), **_q),
     H("long", defs=["RUNS=1", "LEN=70", "MAXPOS=80", "MAXVAL=0x7fffff00", "FAIL=0"], bounds="a run of up to 70 positions anywhere", thorough=dict(defs=["RUNS=1", "LEN=600", "MAXPOS=610", "MAXVAL=0x7fffff00", "FAIL=0"]), **_q),
     H("growing", defs=["RUNS=12", "LEN=1", "MAXPOS=40", "MAXVAL=0x7fffff00", "FAIL=0", "FIXED"], bounds="11 or 12 runs far apart (sequences of up to 78 bytes)", thorough=dict(defs=["RUNS=16", "LEN=1", "MAXPOS=40", "MAXVAL=0x7fffff00", "FAIL=0", "FIXED"]), **_q),
     H("growing_fail", defs=["RUNS=10", "LEN=1", "MAXPOS=40", "MAXVAL=0x7fffff00", "FAIL=1", "FIXED"], bounds="9 or 10 runs far apart, failing allocations", **_q),
     H("fail", defs=["RUNS=2", "LEN=2", "MAXPOS=16", "MAXVAL=0x7fffff00", "FAIL=1"], bounds="0-2 runs anywhere, failing allocations", **_q)], technique=SYM)

S_PARTS = "the parts drpm_apply puts together (delta reader, package access, sequence, block cache, add block, output wrapper) are replaced by their contracts, decided by R01/R02, H01, S02, A02, Z02 and Z03"
_a = dict(src="a01_apply.c", repo=["drpm.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, ren=["creat", "close", "write"], engine="sym", stubs=[S_PARTS, S_MD5], timeout=300)
_b = dict(src="a04_check.c", repo=["drpm.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, engine="sym", stubs=["the delta reader, package access and sequence expansion are replaced by their contracts, decided by R01/R02, H01 and S02"], timeout=300)
PROPS["A01"] = P(
    "All contents of old data of 4 bytes, up to two external and two internal copies of 0-2 bytes, with and without add block (also too short), all digests and compressions; both types, from package and filesystem; failures of every part.",
    [H(f"{n}_{k}", defs=[f"TYPE={t}", f"PROF={p}"], bounds=f"{n}, {b}", **_a)
     for t, n in enumerate(["std", "rpmonly"]) for p, k, b in [(0, "ext", "0-2 external copies anywhere, 0-1 internal"), (1, "mixed", "0-2 copies of each kind, any interleaving")]] +
    [H(f"{n}_fail", defs=[f"TYPE={t}", "PROF=1", "FAIL=1", "COPIES=1", "EXT=2", "CLEN=1"], bounds=f"{n}, one copy of each kind, failures", **_a)
     for t, n in enumerate(["std", "rpmonly"])], technique=SYM)

PROPS["A03"] = P(
    "All names of 0-2 characters, signature digests present or not and differing anywhere, both types, from package and filesystem, source packages; all argument combinations.",
    [H(f"apply_{n}", defs=[f"TYPE={t}", "PROF=1", "IDENT=1", "COPIES=1", "EXT=2", "CLEN=1"], bounds=f"{n} deltas", **_a) for t, n in enumerate(["std", "rpmonly"])] +
    [H("check" + ("_fail" if f else ""), defs=["CHECK=0", f"FAIL={f}"], bounds="both types, all modes", **_b) for f in (0, 1)], technique=SYM)

PROPS["A04"] = P(
    "Texts of 0-3 arbitrary characters (thorough: 5) followed by 0 or 31-34 hexadecimal digits with an arbitrary character among them; all modes and argument combinations; failures of every part.",
    [H("sequence" + ("_fail" if f else ""), defs=["CHECK=1", f"FAIL={f}", f"PRE={2 if f else 3}"], bounds="texts of up to 37 characters", thorough=dict(defs=["CHECK=1", f"FAIL={f}", f"PRE={3 if f else 5}"]), **_b) for f in (0, 1)],
    technique=SYM)

PROPS["E01"] = P(
    "All contents of the first 0-128 bytes of a file, of up to two section headers and of a section name table of up to 20 bytes; section header sizes 0-65535 (ten values), name table lengths 0-4 GiB (seven values), short reads; failing allocations.",
    [H(f"elf{64 if w else 32}{'le' if l else 'be'}" + ("_fail" if f else ""), "e01_prelink.c", ["drpm_apply.c", "drpm_utils.c"], defs=[f"FAIL={f}", f"IS64={w}", f"LE={l}"], mem=True, ren=["pread"], engine="sym", bounds="up to two sections", timeout=300) for w, l, f in [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1)]],
    technique=SYM)

PROPS["I01"] = P(
    "One file of 0-5 bytes with any content, read in any portions through a buffer of 2 or 256 bytes, recorded sizes of 0-5 and any digest; present or missing, plain or modified by prelink (with and without prelink at hand); both digests and checks; failures at every call.",
    [H(n, "i01_check.c", ["drpm_apply.c", "drpm_utils.c"], defs=d, mem=True, ren=["open", "close", "read", "pread", "mkstemp", "fork", "execl", "waitpid", "unlink"], engine="sym", stubs=[S_MD5, "file system and process calls are modelled"],
       bounds="files of up to 5 bytes", timeout=300) for n, d in [
        ("sha256", ["DRPM_VERIFY_BUFFER_SIZE=2"]), ("md5", ["ALGO=0", "DRPM_VERIFY_BUFFER_SIZE=2"]), ("prelink", ["PRELINK=1", "DRPM_VERIFY_BUFFER_SIZE=256"]),
        ("fail", ["FAIL=1", "DRPM_VERIFY_BUFFER_SIZE=2"]), ("prelink_fail", ["FAIL=1", "PRELINK=1", "DRPM_VERIFY_BUFFER_SIZE=256"])]],
    technique=SYM)

def _blk(n, mode, bs, core, bounds, extra=(), thorough=None):
    return H(n, "a02_blocks.c", ["drpm_block.c"] + (["drpm_make.c", "drpm_utils.c"] if mode else []), mem=True, engine="sym", timeout=400,
             ren=["open", "close", "read", "lseek", "pread", "pwrite", "mkstemp", "unlink", "sprintf", "snprintf"],
             defs=[f"MODE={mode}", f"DRPM_VERIFY_BLOCK_SIZE={bs}", f"DRPM_VERIFY_MAX_CORE_BLOCKS={core}", "DRPM_VERIFY_MAX_OPEN_FILES=1"] + list(extra), bounds=bounds,
             thorough=dict(defs=[f"MODE={mode}", f"DRPM_VERIFY_BLOCK_SIZE={bs}", f"DRPM_VERIFY_MAX_CORE_BLOCKS={core}", "DRPM_VERIFY_MAX_OPEN_FILES=1"] + thorough) if thorough else None)
PROPS["A02"] = P(
    "Blocks of 2 bytes over 5-7 bytes (rpm-only; 0-3 copies anywhere), blocks of 6-236 bytes over archives of up to 5 files (standard from the package or the filesystem, with and without prelinked files; 0-2 copies of whole blocks anywhere), 1-2 blocks in memory and one open file, so that everything is evicted and paged; all contents; package archives with other files, sizes, data or empty names; failures of every call (rpm-only).",
    [_blk(f"rpmonly_{c}", 0, 2, c, "7 bytes in 4 blocks, 0-3 copies", ["EXT=7", "COPIES=3"]) for c in (1, 2)] +
    [_blk("rpmonly_many", 0, 1, 3, "7 blocks, 0-3 copies, 3 blocks in memory", ["EXT=7", "COPIES=3"])] +
    [_blk("rpmonly_clean", 0, 1, 16, "11 blocks, 0-3 copies of 1, 3 or 11 blocks, 16 blocks in memory", ["EXT=11", "COPIES=3", "LENS={1,3,11}"])] +
    [_blk("rpmonly_header", 0, 2, 1, "5 bytes in 3 blocks, header of 0-3 bytes, 0-2 copies", ["EXT=5"])] +
    [_blk("rpmonly_fail", 0, 2, 1, "5 bytes in 3 blocks, 0-2 copies, failures", ["EXT=5", "FAIL=1"])] +
    [_blk(f"{n}_{o}", m, bs, 1, "up to 5 files, 0-2 copies of whole blocks", [f"ORDER={o}"]) for n, m in [("package", 1), ("files", 2)] for o, bs in [(0, 110), (1, 57), (2, 100), (3, 128)]] +
    [_blk("prelink_link", 3, 236, 1, "4 files, a link across blocks, 0-2 copies of whole blocks", ["ORDER=4"])] +
    [_blk(f"{n}_{o}_small", m, bs, 1, "up to 5 files, small blocks, one copy of 1-4 blocks", [f"ORDER={o}", "COPIES=1", "SPAN=3"]) for n, m in [("package", 1), ("files", 2), ("prelink", 3)] for o, bs in [(0, 10), (2, 6), (3, 6)]],
    technique=SYM)

PROPS["P02"] = P(
    "Packages of up to 6 listed files (files, directory, link, device) with any attributes of one of them, contents of 0-5 bytes and any link target of 1-4 characters, archives in three orders: with unlisted files, files of another size, data of files that have none, with and without leading \"./\", longer name fields; both digests; failing allocations, digests and reads; lists of patched files; archive entries with any name and file length.",
    [H(n, "p02_make.c", ["drpm_make.c", "drpm_apply.c", "drpm_utils.c"], mem=True, ren=["sprintf", "snprintf", "open", "read", "close", "lseek"], engine="sym", timeout=400, stubs=[S_RPM, S_MD5],
       defs=["DRPM_VERIFY_BUFFER_SIZE=2", "DRPM_VERIFY_CPIO_ALLOC_SIZE=64"] + d, bounds=b) for n, d, b in [
        ("order0", [], "5 files in header order"), ("order1", ["ORDER=1"], "3 files backwards"), ("order2", ["ORDER=2", "ALGO=DIGESTALGO_SHA256"], "4 files mixed, SHA-256"),
        ("fail", ["FAIL=1", "ORDER=1"], "3 files, failures"), ("hostile", ["HOSTILE=1", "ORDER=1"], "3 files and an entry with any lengths"),
        ("patches", ["PATCHES=1"], "5 files, two of which are on lists of patched files")]],
    technique=SYM)

S_LIBRPM = "librpm by its documented contract (headers are counted objects with an exported form)"
PROPS["H01"] = P(
    "Packages with signatures of 16-23 bytes (every padding), headers of 19 bytes, archives of 0-4 bytes read in any portions, with any content; all modes and digests; three archive reads of any 64-bit length; replacement lead/signatures of 110-134 arbitrary bytes; headers of up to 3 index entries; failures of every call.",
    [H(n, "h01_parts.c", ["drpm_rpm.c", "drpm_utils.c"], mem=True, ren=["open"], engine="sym", timeout=400, stubs=[S_LIBRPM, S_MD5, S_DEC],
       defs=["DRPM_VERIFY_BUFFER_SIZE=2"] + d, bounds=b) for n, d, b in [
        ("read", ["WHAT=0"], "signature 16-23 bytes, archive 0-2 bytes"), ("read_fail", ["WHAT=0", "FAIL=1"], "signature 17 bytes, archive 2 bytes, failures"),
        ("fetch", ["WHAT=1"], "signature 16-23 bytes, archive 0-2 bytes"), ("fetch_fail", ["WHAT=1", "FAIL=1"], "signature 17 bytes, archive 2 bytes, failures"),
        ("chunks", ["WHAT=3"], "archive 0-4 bytes, three reads of any 64-bit length"),
        ("write", ["WHAT=4"], "signature 16-23 bytes, archive 0-2 bytes"), ("write_fail", ["WHAT=4", "FAIL=1"], "signature 17 bytes, archive 2 bytes, failures")]] +
    [H(n, "h01_sig.c", ["drpm_utils.c"], mem=True, engine="sym", timeout=400, stubs=[S_LIBRPM], defs=d, bounds=b) for n, d, b in [
        ("replace", ["WHAT=0"], "lead and signature of 110-113 and 126-134 bytes, any content"), ("payoff", ["WHAT=1"], "headers of up to 3 entries and 5 bytes, any content"),
        ("payoff_fail", ["WHAT=1", "FAIL=1"], "headers of up to 3 entries and 5 bytes, failures"), ("sign", ["WHAT=2"], "any size and digest"),
        ("patch", ["WHAT=3"], "headers of up to 3 entries"), ("patch_fail", ["WHAT=3", "FAIL=1"], "headers of up to 3 entries, failures")]],
    technique=SYM)
PROPS["H02"] = P(
    "Texts of up to 6 arbitrary characters and all near misses of the known names; all 32-bit algorithm numbers; lists of 0-2 files with any attributes, any one tag missing, of another length or type; names of installed packages of up to 9 characters out of dashes, colons and others; failures of every call.",
    [H(n, "h02_attrs.c", ["drpm_utils.c"], mem=True, engine="sym", timeout=400, stubs=[S_LIBRPM], defs=["WHAT=%d" % w] + d, bounds=b) for n, w, d, b in [
        ("comp", 0, [], "texts of 0-6 characters"), ("level", 1, [], "texts of 0-4 characters"), ("algo", 2, [], "all 32-bit numbers"),
        ("format", 3, ["FAIL=1"], "texts of 0-5 characters"), ("files", 4, [], "0-2 files"), ("files_fail", 4, ["FAIL=1"], "0-2 files, failing allocations"),
        ("installed", 6, [], "names of 0-9 characters"), ("installed_fail", 6, ["FAIL=1"], "one name, failures")]],
    technique=SYM)

PROPS["L01"] = P(
    "Lists of up to two patches and three files, names of up to 6 characters, all kinds of entries, cut off anywhere; packages of up to two files; failures of every call.",
    [H(n, "l01_patches.c", ["drpm_utils.c"] + (["drpm_read.c"] if w == 5 else []), mem=True, ren=["open", "read", "close", "lseek", "sprintf"], engine="sym", timeout=400, defs=["WHAT=%d" % w] + d, bounds=b) for n, w, d, b in [
        ("head", 0, [], "texts of 0-2 characters"), ("unpatched", 1, [], "0-2 names"), ("entry", 2, [], "one file of each kind"), ("entry_cut", 2, ["CUT=1"], "one file of each kind, cut off anywhere"),
        ("entries", 3, [], "two or three files"), ("entries_cut", 3, ["CUT=1"], "two or three files, cut off anywhere"),
        ("list_fail", 4, ["FAIL=1"], "three files, failures"), ("both", 5, [], "1 and 0-2 files"), ("both_fail", 5, ["FAIL=1"], "1 and 0-2 files, failures"),
        ("any", 8, [], "5 bytes of 0-3, 0xE0-0xE1 or 0xFF after the head"), ("long", 7, [], "texts of 127-257 characters"), ("decide", 6, [], "lists of 0-2 files")]],
    technique=SYM)

_G = [("two", 0, "two packages"), ("one", 1, "one package"), ("two_rpmonly", 2, "two packages, rpm-only"), ("one_rpmonly", 3, "one package, rpm-only")]
_GH = lambda fail: [H(n + ("_fail" if fail else ""), "g01_make.c", ["drpm.c", "drpm_options.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, engine="sym", timeout=400,
                      stubs=[S_RPM, "archive parser, differ, writer: log what they are given"], defs=["WHAT=%d" % w, "FAIL=%d" % fail], bounds=b) for n, w, b in _G]
PROPS["G01"] = P(
    "All options and their absence, one or two packages with any sizes, digests, compressions, names and patches, archives of 0-2 bytes; old archive expansions of 1-3 bytes; unsuitable arguments and packages.",
    _GH(0), technique=SYM)
PROPS["F01"] = P(
    "Every set of failing calls within the bounded runs: making each kind of delta from one or two packages, writing it and the sequence file, reading one, applying and checking one, the block cache, package files, sequences, lists of patched files, every compression.",
    _GH(1) + [
    H("read", "f01_read.c", ["drpm.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, engine="sym", timeout=400, stubs=[S_RPM], defs=["FAIL=0"], bounds="deltas with and without optional parts, unreadable ones"),
    H("read_fail", "f01_read.c", ["drpm.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, engine="sym", timeout=400, stubs=[S_RPM], defs=["FAIL=1"], bounds="the same, failures")] +
    [H(n, "f01_write.c", ["drpm_write.c", "drpm_deltarpm.c", "drpm_utils.c"], mem=True, ren=["open", "creat", "close", "write", "fopen", "fclose", "fprintf"], engine="sym", timeout=400,
       stubs=[S_RPM, "compressor, digest and file operations"], defs=["FAIL=1", "WHAT=%d" % w], bounds=b) for n, w, b in [("write_fail", 0, "both types"), ("seqfile_fail", 1, "sequences of 16-18 bytes")]],
    technique=SYM)

# F01 is about every operation: the failure variants of the other properties' harnesses belong to it too
def _shared(pid, h):
    c = copy.copy(h)
    c.name = f"{pid}_{h.name}"
    return c
PROPS["F01"].harnesses += [_shared(pid, h) for pid in ["A01", "A02", "A03", "A04", "I01", "H01", "P02", "S01", "S02", "L01", "Z01", "Z02", "Z03"]
                           for h in PROPS[pid].harnesses if h.engine == "sym" and h.name.endswith("fail")]

for _id, _p in PROPS.items():
    for _h in _p.harnesses:
        _h.prop = _id
