"""What each check runs."""
import os, subprocess
import build, run

VERIF = os.path.dirname(os.path.abspath(__file__))
CHECKS = {}

def extra_sources(harness):
    return ()

def tiered(s, quick, thorough):
    return thorough if s.tier == "thorough" else quick

BUILDS = []

# said of every check
TRUST = "Decides the executions it makes, no more; trusts the compiler's sanitizers and this check's own oracle."

def define(prop, fn, rule, technique, note, builds, level="exploration", assumptions=(), must_observe=()):
    for b in builds:
        if b not in BUILDS:
            BUILDS.append(b)
    CHECKS[prop] = dict(fn=fn, rule=rule, level=level, technique=technique, note=note + " " + TRUST,
                        assumptions=list(assumptions), must_observe=list(must_observe))

MODEL = "generated inputs under ASan+UBSan, judged by an independent model"

def simple(prop, rule, parts, technique=MODEL, note="", level="exploration", assumptions=(), must_observe=()):
    """parts: (name, build, harness, mode, quick cases, thorough cases[, args])"""
    def fn(s):
        for p in parts:
            s.run(p[0], p[1], p[2], p[3], tiered(s, p[4], p[5]), args=p[6] if len(p) > 6 else ())
    define(prop, fn, rule, technique, note or "Randomly generated cases over the whole input grammar of the property, each compared in full.",
           [(p[1], p[2]) for p in parts], level, assumptions, must_observe)

simple("C02", "generated SubRip documents; non-trivial: at least one line of text was compared with the model; distinct by bytes",
       [("srt", "asan", "text_readers", "C02", 16000, 400000)], must_observe=["runs-compared", "with-bom", "with-crlf"])
simple("C03", "generated SubRip cues rich in markup; non-trivial: at least one run of text and its style were compared; distinct by bytes",
       [("srt", "asan", "text_readers", "C03", 60000, 600000)], must_observe=["runs-compared", "feature-bit-8"])
simple("C06", "generated WebVTT documents; non-trivial: at least one line of text was compared; distinct by bytes",
       [("vtt", "asan", "text_readers", "C06", 64000, 400000)], must_observe=["runs-compared"])
simple("C07", "generated text STL documents; non-trivial: at least one run was compared; distinct by bytes",
       [("stl", "asan", "text_readers", "C07", 64000, 400000)], must_observe=["runs-compared"])
simple("C04", "generated SSA/ASS scripts; non-trivial: at least one run of text and its style were compared; distinct by bytes",
       [("ssa", "asan", "ssa", "C04", 36000, 300000)], must_observe=["runs-compared"])
simple("C05", "generated SSA/ASS scripts rich in positioning; non-trivial: at least one run's place was compared; distinct by bytes",
       [("ssa", "asan", "ssa", "C05", 48000, 400000)], must_observe=["runs-compared"])
simple("C08", "generated binary STL files; non-trivial: at least one run of text was compared with the model; distinct by bytes",
       [("stl", "asan", "stlbin", "C08", 32000, 400000)], must_observe=["runs-compared", "blocks"])
simple("C09", "generated subtitles and header values written to a file that an independent parser checks; non-trivial: at least one subtitle; distinct by the bytes written",
       [("write", "asan", "stlwrite", "C09", 16000, 400000)],
       must_observe=["lines-compared", "header-fields-compared", "too-long-refused", "too-late-refused", "too-many-refused"])
simple("C10", "generated subtitles written, read back and written again; non-trivial: at least one subtitle; distinct by the bytes written",
       [("round-trip", "asan", "stlwrite", "C10", 32000, 400000)],
       must_observe=["runs-compared", "subtitles-compared", "written-again-identical", "written-thrice-identical"])
simple("C11", "every character of the repertoire, every byte after every accent, and random strings; non-trivial: every case; distinct by string",
       [("codec", "asan", "stlbin", "C11", 96000, 600000)],
       must_observe=["repertoire-characters", "bytes", "strings-encoded", "strings-decoded"])
simple("C20", "generated documents of every format, read, collected, written as binary STL and read back; non-trivial: at least one subtitle; distinct by the bytes written",
       [("any", "asan", "stlwrite", "C20", 32000, 400000)],
       must_observe=["srt-written", "vtt-written", "ssa-written", "stl-written", "unrated-refused", "lines-compared"])
simple("C23", "generated headers, and the tables of codes in turn; non-trivial: every case; distinct by header",
       [("header", "asan", "stlbin", "C23", 24000, 400000)],
       must_observe=["fields-compared", "codes-checked", "undefined-codes-tried"])
simple("C12", "pairs of times at various rates, their conversions, sums and products; non-trivial: every case; distinct by pair",
       [("time", "asan", "values", "C12", 240000, 3000000)],
       technique="generated values under ASan+UBSan, judged by exact rational arithmetic",
       must_observe=["pairs-less", "pairs-equal", "pairs-greater", "conversions", "sums", "products", "from-frames", "unrated-refused"])
simple("C13", "generated raw subtitles, many sharing times, fades or positions; non-trivial: at least one piece; distinct by all the pieces' attributes",
       [("collect", "asan", "values", "C13", 28000, 600000)], must_observe=["pieces", "subtitles", "lines"])
simple("C14", "generated documents, some damaged, given in five ways, and well-formed ones in eight layouts; non-trivial: every case; distinct by bytes",
       [("sources", "plain", "sources", "C14", 8000, 300000), ("sanitized", "asan", "sources", "sanitized", 600, 30000)],
       technique="the same bytes delivered in different ways, as shipped and under ASan+UBSan; differential monitor",
       must_observe=["deliveries-compared", "layouts-compared", "by-name-compared", "long-lines", "srt-refused", "vtt-refused", "stl-binary-refused", "stl-text-read", "ssa-read"])

# ------------------------------------------------------------------ threads
def threads(s):
    s.run("races", "tsan", "threads", "C15", tiered(s, 400, 8000), workers=3)
    s.run("results", "plain", "threads", "stress", tiered(s, 600, 20000), workers=3)
define("C15", threads, "processes in which 2 to 8 threads start together on documents of their own, each process new; non-trivial: every process; distinct by the documents and the process",
       "ThreadSanitizer on processes whose first use of the library is concurrent, and comparison with each document processed alone in a new process",
       "Threads share nothing but the library; starts are aligned with a barrier and disturbed by random pauses.",
       [("tsan", "threads"), ("plain", "threads")],
       must_observe=["threads-compared", "processes", "threads-srt", "threads-vtt", "threads-ssa", "threads-stl-text", "threads-stl-binary"])

# ------------------------------------------------------------------ locales
LOCALES = ["de_DE UTF-8", "fr_FR UTF-8", "tr_TR UTF-8", "de_DE ISO-8859-1", "tr_TR ISO-8859-9", "ru_RU KOI8-R", "ja_JP EUC-JP", "hi_IN UTF-8",
           "ps_AF UTF-8", "fa_IR UTF-8", "en_US UTF-8", "zh_CN GBK"]

def compile_locales(d):
    """Compile locales into a directory, as only C is installed."""
    os.makedirs(d, exist_ok=True)
    ps = []
    for l in LOCALES:
        name, charset = l.split()
        out = os.path.join(d, name + "." + charset)
        try:
            ps.append((out, subprocess.Popen(["localedef", "--no-archive", "-i", name, "-f", charset, out], stdin=subprocess.DEVNULL,
                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        except OSError:
            break
    for out, p in ps:
        p.wait()
    return sorted(os.path.basename(o) for o, p in ps if os.path.exists(os.path.join(o, "LC_NUMERIC")))

def locales(s):
    d = os.path.join(s.scratch, "locales")
    names = compile_locales(d)
    s.notes.append("locales: " + ", ".join(names))
    env = {"LOCPATH": d, "VERIF_LOCALES": ":".join(names)}
    s.run("results", "plain", "locale", "C17", tiered(s, 12000, 400000), env=env)
    s.leaks = False      # glibc's own newlocale leaks
    s.run("sanitized", "asan", "locale", "C17", tiered(s, 1600, 40000), env=env)
define("C17", locales, "generated documents processed under the classic locale and four others; non-trivial: every case; distinct by bytes",
       "the same work under many C and C++ locales; differential monitor, and ASan+UBSan",
       "Locales are compiled for the check; without localedef only locales made of facets are tried.",
       [("plain", "locale"), ("asan", "locale")],
       must_observe=["comparisons", "facet-locale", "written", "thousand-dumped", "thousand-written", "srt", "vtt", "ssa", "stl-text", "stl-binary"])

# ------------------------------------------------------------------ memory and history
STAGES = ["subtitles", "metadata", "collected", "dump", "written", "values"]

def read_digests(d):
    o = {}
    for f in os.listdir(d):
        for l in open(os.path.join(d, f)):
            w = l.split()
            if len(w) == 7:
                o[int(w[0])] = w[1:]
    return o

def full_result(s, variant, mode, case, env):
    path = os.path.join(s.scratch, "full")
    if os.path.exists(path):
        os.unlink(path)
    e = dict(env)
    e.update(VERIF_FULL=path)
    e.pop("VERIF_DIGESTS", None)
    s.run_single(build.build(variant, "history"), mode, case, env=e)
    return open(path, "rb").read() if os.path.exists(path) else b"(no result)"

def history(s):
    n = tiered(s, 6000, 150000)
    runs = []
    for name, variant, env, cases in (
            ("pattern", "pat", {"MALLOC_PERTURB_": "90"}, n),
            ("zero", "zero", {"MALLOC_PERTURB_": "255"}, n),
            ("reversed", "plain", {"VERIF_REVERSE": "1", "VERIF_TOTAL": str(n)}, n)):
        d = os.path.join(s.scratch, "digests-" + name)
        os.makedirs(d)
        e = dict(env, VERIF_DIGESTS=d)
        s.run(name, variant, "history", "C21", cases, env=e)
        runs.append((name, variant, e, read_digests(d)))
    first = runs[0]
    for other in runs[1:]:
        compared = 0
        for case, d in sorted(first[3].items()):
            o = other[3].get(case)
            if o is None:
                continue
            compared += 1
            if o != d:
                stage = [STAGES[i] for i in range(6) if o[i] != d[i]][0]
                a = full_result(s, first[1], "C21", case, first[2])
                # the same case is at another place in the reversed run
                at = n - 1 - case if "VERIF_REVERSE" in other[2] else case
                b = full_result(s, other[1], "C21", at, other[2])
                i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), -1)
                if i < 0:
                    detail = "alone the case gives the same, so it depends on what was done before"
                else:
                    detail = "at byte %d: %r and %r" % (i, a[max(0, i - 100):i + 100], b[max(0, i - 100):i + 100])
                s.violation("compare", "%s: %s and %s" % (stage, first[0], other[0]), "case %d: %s differ between %s and %s: %s" % (case, stage, first[0], other[0], detail),
                            case, "", mode="C21", variant=first[1], harness="history")
                break
        s.add_count("digests-compared", compared)
    # the memory itself
    prog = build.build("vg", "history")
    wrapper = os.path.join(s.scratch, "valgrind.sh")
    with open(wrapper, "w") as f:
        f.write("#!/bin/sh\nexec valgrind -q --error-exitcode=73 --leak-check=no --undef-value-errors=yes --track-origins=no --num-callers=14 %s \"$@\"\n" % prog)
    os.chmod(wrapper, 0o700)
    before = s.evaluations
    s.run("memcheck", "vg", "history", "C21", tiered(s, 160, 4000), prog=wrapper)
    s.add_count("cases-under-valgrind", s.evaluations - before)
define("C21", history, "generated documents and everything the library gives for them, in four processes that differ in the contents of fresh memory and in what came before; non-trivial: every case; distinct by bytes",
       "differential monitor over builds that fill memory differently and over orders of work; valgrind memcheck",
       "Values that differ between fills of automatic variables and heap, or with history, are seen only if they reach a result.",
       [("pat", "history"), ("zero", "history"), ("plain", "history"), ("vg", "history")],
       must_observe=["digests-compared", "repeated", "earlier-checked", "files-written", "cases-under-valgrind"])

simple("C22", "generated positions, sizes, colours and whole objects; non-trivial: every case; distinct by the pair of positions",
       [("values", "asan", "values", "C22", 240000, 1500000)], technique="generated values under ASan+UBSan, judged by their definitions",
       must_observe=["positions", "positions-ordered", "sizes", "colours", "colours-refused", "equal-pairs", "different-pairs", "names"])

simple("C16", "well-formed documents spoiled in one place, and binary files cut or given unknown codes; non-trivial: every case; distinct by bytes",
       [("malformed", "asan", "malformed", "C16", 9000, 300000)],
       technique="fault injection into generated documents under ASan+UBSan, with a monitor of the errors reported",
       must_observe=["contexts-checked", "srt-time-lines", "srt-colours", "vtt-headers", "vtt-time-lines", "cuts", "unknown-header-codes", "unknown-comment-flags", "blocks-missing", "ssa-refused", "stl-text-line-ignored",
                     "srt-read-errors", "vtt-read-errors", "ssa-read-errors", "stl-text-read-errors", "stl-binary-read-errors"])

def opening(s):
    tool = build.build("asan", os.path.join(build.REPO, "tools", "dumpsubs"))
    s.run("opening", "asan", "opening", "C18", tiered(s, 8000, 200000), env={"VERIF_TOOL": tool})
define("C18", opening, "files of all formats under names of all kinds, what is not a file, and the command line tool; non-trivial: every case; distinct by name and bytes",
       "generated files and names under ASan+UBSan, judged by a model of the dump, by the readers themselves, and by a census of open files",
       "The tool runs as its own sanitized process.",
       [("asan", "opening")],
       must_observe=["srt-opened", "stl-text-opened", "stl-binary-opened", "unknown-extensions", "malformed-refused", "unreadable-refused", "dumps-compared", "made-up-dumps", "styled-lines",
                     "tool-dumps", "tool-refusals", "tool-usage", "srt-dumped", "vtt-dumped", "ssa-dumped", "stl-text-dumped", "stl-binary-dumped"])

simple("C19", "generated subtitles, each written with room for every number of bytes or several, with errors, short writes and interruptions in system calls, with errors in closing, and to what is no file; non-trivial: every set of subtitles; distinct by the bytes written",
       [("faults", "asan", "writefaults", "C19", 600, 20000)], level="fault_enumeration",
       technique="fault injection with resource limits and interposed system calls under ASan+UBSan; monitor of the bytes on disk, errors and open files",
       note="Every number of bytes is tried for some files, and boundaries and samples for the rest.",
       must_observe=["every-byte", "out-of-room", "errors-once", "errors-lasting", "close-errors", "short-writes", "interruptions", "nowhere-to-write", "complete", "failures-reported"])

def hostile(s):
    s.run("hostile", "asan", "hostile", "C01", tiered(s, 32000, 500000))
    s.run("no-memory", "asan", "nomem", "nomem", tiered(s, 1200, 20000))
    s.fuzz("fuzz", "fuzz", tiered(s, 5000, 250000))
define("C01", hostile, "documents of every format, damaged, made of fragments of anything, random, and evolved by coverage, and documents processed with memory running out; distinct by bytes",
       "ASan+UBSan+LSan+container assertions over hostile input (generated, and coverage-guided by libFuzzer), and failure of every allocation in turn; monitor of exceptions, results and open files",
       "Sanitizers see only the library's own code, not that of Boost and ICU.",
       [("asan", "hostile"), ("asan", "nomem"), ("fuzz", "fuzz")],
       must_observe=["damaged", "soup", "random", "crossed", "dumped", "written", "writing-refused", "no-memory-reading", "no-memory-collecting", "no-memory-writing", "fuzz-executions"]
       + [f + x for f in ("srt", "vtt", "ssa", "stl-text", "stl-binary") for x in ("-with-subtitles", "-refused")])

def scaling(s):
    s.run("scaling", "count", "scaling", "C24", tiered(s, 104, 1040), env={"VERIF_STEPS": tiered(s, "3", "4")})
define("C24", scaling, "families of documents of three sizes (four in the thorough check), each four times the one before; non-trivial: every family; distinct by family and contents",
       "instrumented builds that count the blocks of code executed, the bytes moved and the memory used; monitor of their growth",
       "A cost is noticed once it outweighs the proportional one at the sizes tried (up to 2 MB, or 8 MB).",
       [("count", "scaling")],
       must_observe=["ratios", "writes-judged", "srt-families", "vtt-families", "ssa-families", "stl-text-families", "stl-binary-families"])

def replay_env(s, v):
    """The environment a case ran in, with what was temporary made again."""
    e = dict(v.get("env") or {})
    if "VERIF_TOOL" in e:
        e["VERIF_TOOL"] = build.build("asan", os.path.join(build.REPO, "tools", "dumpsubs"))
    if "LOCPATH" in e:
        e["LOCPATH"] = os.path.join(s.scratch, "locales")
        compile_locales(e["LOCPATH"])
    e.pop("VERIF_DIGESTS", None)
    return e
