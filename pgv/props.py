"""Registry: property -> proof units (contracts), bounded stand-ins, assumptions."""
from .contracts import hashes as Hs, keccak as Kc, blowfish as Bf, api as Ap, hmac as Hm, bases as Bs, hexutil as Hx, frames as Fr, cxx as Cx

TB = ["clang 18 front end: the verified text is the LLVM IR clang -O0 produces from /repo's current sources on this run, after opt -passes=mem2reg,loop-simplify; nothing is dropped",
      "pgv: the VC generator (IR semantics in pgv/exec.py, memory model in pgv/mem.py, term rewriting in pgv/terms.py, linear-integer back end in pgv/smt.py)",
      "z3 4.x (python binding) as SMT back end; thorough tier re-discharges with cvc5",
      "x86-64 little endian, 64-bit size_t; machine arithmetic is bit-precise (no mathematical-integer idealisation)"]

class Prop:
    def __init__(s, units, want=None, assume=(), level="proof", bounded=(), note=None): s.units = units; s.note = note or "every obligation for all inputs and all iterations, no bound"; s.want = want; s.assume = list(assume); s.level = level; s.bounded = list(bounded)

def kc(*algs): return lambda prog: Kc.units(list(algs), prog)
def md(*algs): return lambda prog: Hs.md_units(list(algs), prog)
HW = lambda p: p.endswith(".c") and (p.startswith("src/hashes/") or p.startswith("src/core/"))
HA = ["hash contexts are only touched through the library's functions between init and digest (contexts are values; S01 covers independence)",
      "total message length at most 2^61-1 bytes (bit counter of the standard), single append at most 2^63-1 bytes",
      "input, context and output buffers do not overlap"]
BW = lambda p: p.endswith(".c") and (p.startswith("src/fishes/") or p.startswith("src/core/"))
def bf(*w): return lambda prog: Bf.units(list(w), prog)
BA = ["key length 1 to 56 bytes (the published range); buffers at most 2^60 bytes",
      "context, block, input and output are distinct objects, except that input and output of the buffer functions may be the same buffer"]
FA = ["the streaming init/update/digest functions satisfy their contracts (proved under H01..H06)",
      "fread delivers the next min(count, rest of the file) bytes, short only at the end of the file; strlen, va_arg as in C",
      "data and total length at most 2^60 bytes, fewer than 2^31-2 parts, requested output a whole number of bytes", "buffers do not overlap"]
MW = lambda p: p.endswith(".c") and p.split("/")[1] in ("hashes", "core", "hmac", "otp")
def hm(*w): return lambda prog: Hm.units(list(w), prog)
SA = "the streaming hash init/update/digest functions satisfy their contracts (proved under H01..H06)"
MA = [SA, "keys, single appends and the message so far are at most 2^59 bytes", "key, data, context and output are distinct objects"]
OA = [SA, "algorithms with a fixed output of at least 20 bytes (all but MD5); secret at most 2^59 bytes"]
TA = OA + ["the current time is not before the initial time, both within 2^61 s of 1970; interval at least 1, and at most 2^31-1 when the remaining time (a signed 32-bit result) is asked for",
           "time() returns the current time at its first call and a time not before it at later ones"]
EW = lambda p: p.endswith(".c") and p.split("/")[1] in ("base_encoding", "core")
def bs(*w): return lambda prog: Bs.units(list(w), prog)
EA = ["input at most 2^56 groups; input and output do not overlap"]
UW = lambda p: p.endswith(".c") and p.startswith("src/core/")
def hex_(*w): return lambda prog: Hx.units(list(w), prog)
UA = ["byte strings of at most 2^58 bytes, NUL-terminated texts of at most 2^59 characters", "input and output do not overlap (except the in-place form of the cleaning functions)"]
CW = lambda p: p.endswith(".c")
def cx(*w): return lambda prog: Cx.units(list(w), prog)
XA = ["contracts of the C++ standard library (pgv/stl.py): std::string and std::basic_string<unsigned char> keep exactly the bytes given and a terminating zero; find functions, substr, reserve/resize, std::unique_ptr's inline code is verified as compiled, operator new returns fresh memory",
      "allocation succeeds", "objects and arguments are distinct; texts and data at most 2^56 bytes; one thread per object"]
PROPS = {
    "C01": Prop(cx("c01"), None, XA + ["C hash functions satisfy their contracts (proved under H01..H06)", "one digest per construction or reset; XOF requests are whole bytes"], note="all 16 algorithms, every input form, direct and virtual calls, every message and request"),
    "C02": Prop(cx("c02"), None, XA + ["C HMAC functions satisfy their contracts (proved under M01)", "one digest per object"], note="all 12 fixed-output algorithms, every form of key and data, direct and virtual calls"),
    "C03": Prop(cx("c03"), None, XA + ["C encoders and decoders satisfy their contracts (proved under E01..E03)", "double arithmetic is IEEE 754 round to nearest (each operation exact up to a relative error of 2^-53)", "a C++ string to decode contains no zero byte"],
                note="every object and mode, every input form, every data, from every object state satisfying the class invariant (established by the constructor, preserved by every operation)"),
    "C04": Prop(cx("c04"), None, XA + ["C Blowfish functions satisfy their contracts (proved under B01, B03)", "key length 1 to 56 bytes"]),
    "C05": Prop(cx("c05"), None, XA + ["the C hexadecimal functions satisfy their contracts (proved under U01)"]),
    "C06": Prop(cx("c06"), None, XA + ["pgfe_hotp_generic satisfies its contract (proved under O01); the base-32 decoder object decodes as the C function does (C03)",
                                       "algorithms with a fixed output of at least 20 bytes", "interval 1 to 2^31-1; the current time is not before the initial time, both within 2^61 s of 1970"],
                note="all 11 algorithms, all digit counts 0..255, both reading through the class and its bases; one arbitrary earlier generation with arbitrary settings stands for every history (induction over the object's state)"),
    "C07": Prop(cx("c07"), None, XA[:2] + ["std::unordered_map built from an initializer list holds its entries; at() throws std::out_of_range for any other key"], note="every text"),
    "C08": Prop(cx("c08"), None, XA[:1] + ["an allocation either succeeds or throws std::bad_alloc without effect", "std::mutex gives mutual exclusion and ordering, and locking it does not throw", "data handed to a call is not changed by another thread meanwhile",
                                           "the object outlives the calls", "C encoders and decoders satisfy their contracts (proved under E01..E03)", "double arithmetic is IEEE 754 round to nearest"],
                note="every interleaving, by the monitor rule: fields changed are owned by a lock of the object, whose invariant (a part of the class invariant) holds at every acquisition and release, on normal and exceptional exits; results depend only on arguments and owned fields; no lock is acquired twice or left held"),
    "H01": Prop(md("md5"), HW, HA),
    "H02": Prop(md("sha1"), HW, HA),
    "H03": Prop(md("sha224", "sha256"), HW, HA),
    "H04": Prop(md("sha384", "sha512", "sha512_224", "sha512_256"), HW, HA[:1] + ["total message length at most 2^125-1 bytes, single append at most 2^63-1 bytes"] + HA[2:]),
    "H05": Prop(kc("sha3_224", "sha3_256", "sha3_384", "sha3_512"), HW, HA[:1] + ["single append at most 2^60 bytes"] + HA[2:]),
    "H06": Prop(kc("shake128", "shake256", "rawshake128", "rawshake256"), HW, HA[:1] + ["single append and single extraction at most 2^60 bytes"] + HA[2:]),
    "B01": Prop(bf("cipher"), BW, BA, note="encrypt_unit for all contexts and blocks; init for every key of each of the 56 lengths, no bound"),
    "B02": Prop(bf("inverse"), BW, BA[1:]),
    "B03": Prop(bf("buffer"), BW, BA),
    "M01": Prop(hm("hmac"), MW, MA),
    "O01": Prop(hm("hotp"), MW, OA, note="all secrets, counters, digit counts (0..255) and hash values"),
    "O02": Prop(hm("totp"), MW, TA),
    "E01": Prop(bs("enc"), EW, EA),
    "E02": Prop(bs("enc", "dec", "round"), EW, EA + ["the text is a NUL-terminated string"]),
    "E03": Prop(bs("dec"), EW, ["the text is a NUL-terminated string of at most 2^58 characters and does not overlap the output"]),
    "S01": Prop(lambda prog: Fr.units(["c"], prog), CW, ["every access stays inside the object its pointer was made from (the bounds obligations of H01..H07, M01, O01, O02, B01, B03, E01..E03, U01, U02)",
                                                      "external C functions touch only what their standard says (strlen, memcmp, sprintf, fread, time, printf)", "the C++ classes are not part of this property's check"],
                note="assigns and reads clauses of every C function of the library, by provenance of every access; no bound"),
    "U01": Prop(hex_("hex"), UW, UA),
    "U02": Prop(hex_("clean"), UW, UA),
    "H07": Prop(lambda prog: Ap.units(["h07"], prog), HW, FA),
}
