#!/usr/bin/env python3
"""Builds the monitoring harness from /repo's working tree, runs one property's workload and gives the verdict.

  run.py check PROP        run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay FILE       run one recorded case again
  run.py setup             compile everything once (only an accelerator: checks rebuild by content)

Exit status of a check: 0 held on everything explored, 1 violated (with VIOLATION lines), 2 no verdict.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
NCPU = os.cpu_count() or 4
DEFS = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]
CLANG_ONLY = ("-gline-tables-only", "-Wno-everything")
BASE = ["-std=c++14", "-fno-omit-frame-pointer", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]

# lib: flags for the code under test; har: flags for the harness; link: link flags
VARIANTS = {
    "asan": dict(lib=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                 har=["-O1", "-fsanitize=address"],
                 link=["-fsanitize=address,undefined"]),
    "asanr": dict(defs=DEFS + ["-DNDEBUG"], lib=["-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                  har=["-O1", "-fsanitize=address"], link=["-fsanitize=address,undefined"]),
    "work": dict(lib=["-O1", "-fsanitize-coverage=trace-pc-guard"], har=["-O1"], link=[]),
    "poison": dict(lib=["-O0", "-ftrivial-auto-var-init=zero"], har=["-O1"], link=[]),
    "poison2": dict(lib=["-O0", "-ftrivial-auto-var-init=pattern"], har=["-O1"], link=[]),
    "full": dict(lib=["-O0"], har=["-O1"], link=[]),
    "small": dict(cxx="g++", defs=["-DSMALL_FOOTPRINT", "-DNDEBUG"], lib=["-O2"], har=["-O1"], link=[], skip="_rtp_"),
    "release": dict(defs=DEFS + ["-DNDEBUG"], lib=["-O3", "-funsigned-char"], har=["-O1"], link=[]),
    "tsan": dict(lib=["-O1", "-fsanitize=thread"], har=["-O1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
}
# the further builds whose results must equal those of the first: variant -> (other variant, what it differs in, key of a difference)
PEERS = {
    "poison": [("poison2", "whose local variables start differently", "depends on an uninitialised variable")],
    "full": [("small", "of small footprint, by another compiler", "differs in the small-footprint build"),
             ("release", "for release", "differs in the release build")],
}
# properties whose odd-numbered processes use another build: prefix -> variant (the assertions are empty there)
ODD = {"B": "asanr"}
COMMON = ["core.cc", "build.cc", "hostile.cc", "deep.cc", "syn_ps.cc", "syn_sps.cc", "syn_slice.cc"]
# property prefix or id -> (mode files, variant)
MODES = {
    "V": (["m_values.cc"], "asan"),
    "V14": (["m_decode.cc"], "asan"),
    "B": (["m_bits.cc"], "asan"),
    "F": (["m_frame.cc"], "asan"),
    "H": (["m_history.cc"], "asan"),
    "D": (["m_derived.cc"], "asan"),
    "P": (["m_rtp.cc"], "asan"),
    "O01": (["m_dump.cc"], "asan"),
    "O02": (["m_dump.cc"], "asan"),
    "O": (["m_cli.cc"], "asan"),
    "R01": (["m_safe.cc"], "asan"),
    "R02": (["m_safe.cc"], "asan"),
    "R03": (["m_safe.cc"], "asan"),
    "R06": (["m_pure.cc"], "asan"),
    "R04": (["m_poison.cc"], "poison"),
    "R05": (["m_work.cc"], "work"),
    "R08": (["m_work.cc"], "work"),
    "O06": (["m_pure.cc"], "asan"),
    "R07": (["m_thread.cc"], "tsan"),
    "R09": (["m_builds.cc"], "full"),
}
NEEDS_CLI = {"O03", "O04"}


class HarnessError(Exception):
    pass


class BuildFailed(HarnessError):
    def __init__(self, src, text):
        HarnessError.__init__(self, text)
        self.src = src


def mode_of(prop):
    return MODES.get(prop) or MODES[prop[0]]


# ------------------------------------------------------------------ build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(struct.pack("<Q", len(p)))
        h.update(p)
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def files(d, *exts):
    return sorted(os.path.join(d, n) for n in os.listdir(d) if n.endswith(exts))


def tree_hash(paths):
    return sha(*[x for p in paths for x in (os.path.relpath(p, "/"), read(p))])


def run_cc(cmd, out):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise HarnessError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("latin-1")[-4000:]))
    return out


def compile_one(job):
    src, flags, out, cxx = job
    if os.path.exists(out):
        return out
    tmp = "%s.%d.tmp.o" % (out, os.getpid())
    try:
        run_cc([cxx] + flags + ["-c", src, "-o", tmp], tmp)
    except HarnessError as e:
        if "-DSMALL_FOOTPRINT" in flags and src.startswith(REPO + "/"):
            raise BuildFailed(src, str(e))
        raise
    os.rename(tmp, out)
    return out


def version_define():
    m = re.search(rb"project\s*\(\s*h265nal\s+VERSION\s+([0-9.]+)", read(os.path.join(REPO, "CMakeLists.txt")))
    return m.group(1).decode() if m else "0"


def gen_config():
    """The CLI's generated config.h, as the project's own build makes it."""
    src = read(os.path.join(REPO, "src", "config.h.in")).decode()
    v = version_define().split(".")
    val = {"PROJECT_NAME": "h265nal", "PROJECT_VERSION": version_define(), "PROJECT_VERSION_MAJOR": v[0],
           "PROJECT_VERSION_MINOR": v[1] if len(v) > 1 else "", "PROJECT_VERSION_PATCH": v[2] if len(v) > 2 else ""}
    src = re.sub(r"@(\w+)@", lambda m: val.get(m.group(1), ""), src)
    d = os.path.join(BUILD, "gen-" + sha(src))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p):
        with open(p + ".tmp", "w") as f:
            f.write(src)
        os.rename(p + ".tmp", p)
    return d


def gen_reflect(hh):
    """Code that walks every public data member of the library's results, made from the compiler's view of the headers."""
    tool = os.path.join(VERIF, "tools", "reflect.py")
    d = os.path.join(BUILD, "reflect-" + sha(hh, read(tool)))
    p = os.path.join(d, "reflect_gen.h")
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        run_cc([sys.executable, tool, REPO, p + ".tmp"], p)
        os.rename(p + ".tmp", p)
    return d


def lib_jobs(variant):
    v = VARIANTS[variant]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    hdrs = files(os.path.join(REPO, "include"), ".h") + files(os.path.join(REPO, "src"), ".h")
    hh = tree_hash(hdrs)
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    cxx = v.get("cxx", "clang++")
    flags = [f for f in BASE if cxx != "g++" or f not in CLANG_ONLY] + v.get("defs", DEFS) + v["lib"] + inc
    if cxx == "g++":
        flags += ["-w"]
    jobs = []
    for s in files(os.path.join(REPO, "src"), ".cc"):
        if v.get("skip") and v["skip"] in os.path.basename(s):
            continue
        h = sha(hh, read(s), " ".join(flags), s)
        jobs.append((s, flags, os.path.join(od, "lib-%s-%s-%s.o" % (variant, os.path.basename(s)[:-3], h)), cxx))
    return jobs, hh, inc


def har_jobs(variant, names, hh, inc):
    v = VARIANTS[variant]
    flags = BASE + v.get("defs", DEFS) + v["har"] + inc + ["-I" + HARNESS, "-I" + gen_reflect(hh)]
    hv = tree_hash(files(HARNESS, ".h"))
    jobs = []
    for n in names:
        s = os.path.join(HARNESS, n)
        h = sha(hh, hv, read(s), " ".join(flags), s)
        jobs.append((s, flags, os.path.join(BUILD, "obj", "har-%s-%s-%s.o" % (variant, n[:-3], h)), "clang++"))
    return jobs


def cli_jobs(hh, inc, variant="asan"):
    v = VARIANTS[variant]
    cxx = v.get("cxx", "clang++")
    flags = [f for f in BASE if cxx != "g++" or f not in CLANG_ONLY] + v.get("defs", DEFS) + v["lib"] + inc
    flags += ["-I" + gen_config(), "-I" + REPO] + (["-w"] if cxx == "g++" else [])
    jobs = []
    srcs = files(os.path.join(REPO, "tools"), ".cc")
    extra = tree_hash(files(os.path.join(REPO, "tools"), ".h"))
    for s in srcs:
        h = sha(hh, extra, read(s), " ".join(flags), s)
        jobs.append((s, flags, os.path.join(BUILD, "obj", "cli-%s-%s-%s.o" % (variant, os.path.basename(s)[:-3], h)), cxx))
    return jobs


def link(objs, flags, name):
    out = os.path.join(BUILD, "bin", name + "-" + sha(*objs, " ".join(flags)))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        run_cc(["clang++"] + flags + ["-o", tmp] + objs + ["-lpthread"], tmp)
        os.rename(tmp, out)
    return out


def peer(prop, variant):
    """The name under which a further build of a property that compares builds is known."""
    return "%s/%s" % (prop, variant)


def build(props):
    """Compiles what the properties need; returns {prop: harness binary} and the CLI binary (or None)."""
    plan = {}
    cli = None
    all_jobs = {}
    names = []
    for p in props:
        mode_files, variant = mode_of(p)
        names.append((p, mode_files, variant))
        if p[0] in ODD:
            names.append((p + "/odd", mode_files, ODD[p[0]]))
        for other, _, _ in PEERS.get(variant, []):
            names.append((peer(p, other), mode_files, other))
    for p, mode_files, variant in names:
        key = (variant, tuple(mode_files))
        if key not in plan:
            lj, hh, inc = lib_jobs(variant)
            hj = har_jobs(variant, COMMON + mode_files, hh, inc)
            plan[key] = (lj, hj)
            for j in lj + hj:
                all_jobs[j[2]] = j
        if (p in NEEDS_CLI or p.endswith("/small")) and cli is None:
            cj = cli_jobs(hh, inc, variant)
            cli = (cj, lj, variant)
            for j in cj:
                all_jobs[j[2]] = j
    # big translation units first
    jobs = sorted(all_jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, jobs))
    bins = {}
    for p, mode_files, variant in names:
        lj, hj = plan[(variant, tuple(mode_files))]
        # library objects first, so that their instrumented copies of inline functions win
        bins[p] = link([j[2] for j in lj] + [j[2] for j in hj], VARIANTS[variant]["link"], "h-%s-%s" % (variant, mode_files[0][:-3]))
    cli_bin = None
    if cli:
        cli_bin = link([j[2] for j in cli[1]] + [j[2] for j in cli[0]], VARIANTS[cli[2]]["link"], "cli")
    return bins, cli_bin


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:"
                    "handle_abort=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1:detect_stack_use_after_return=1:"
                    "allow_user_segv_handler=0:quarantine_size_mb=64:hard_rss_limit_mb=3500:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=79:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:hard_rss_limit_mb=3500",
}


def san_env(reuse):
    """reuse: freed memory is handed out again at once, so that what is remembered by address meets another object there;
    otherwise it is kept aside, so that uses after release are seen."""
    e = dict(SAN_ENV)
    if reuse:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("quarantine_size_mb=64", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
    return e


def crash_key(prop, text, rc):
    """Reduces a sanitizer report to kind and function, so that one defect has one key."""
    kind = None
    m = re.search(r"runtime error: (.*)", text)
    if m:
        kind = "ub: " + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1)).strip()
        kind = re.sub(r"'[^']*'", "T", kind)[:80]
    m2 = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", text)
    if not kind and m2:
        kind = m2.group(1)
    m3 = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", text)
    if not kind and m3:
        kind = m3.group(1).strip()
    m4 = re.search(r"VH-WORK-LIMIT (\w+)", text)
    if not kind and m4:
        return "more than twenty times the bound: " + m4.group(1)
    if not kind and "hard rss limit exhausted" in text:
        kind = "memory exhausted"
    if not kind:
        if "terminate called" in text or "libc++abi" in text:
            kind = "uncaught exception"
        elif "Assertion" in text:
            kind = "assertion"
        else:
            kind = "signal %d" % -rc if rc < 0 else "exit %d" % rc
    fn = None
    for m in re.finditer(r"^\s*#\d+ (?:0x\S+ in )?(.+?) (/\S+?):\d+", text, re.M):
        if m.group(2).startswith((REPO + "/", HARNESS + "/")):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    if not fn:
        m = re.search(r"(/\S+):\d+:\d+: runtime error", text)
        fn = os.path.basename(m.group(1)) if m else "?"
    return "crash: %s in %s" % (kind, fn)


def read_note(path):
    try:
        b = read(path)
    except OSError:
        return None, ""
    nl = b.find(b"\n")
    if nl <= 0:
        return None, ""
    try:
        cur, n = b[:nl].split()
        return int(cur), b[nl + 1:nl + 1 + int(n)].decode("latin-1")
    except ValueError:
        return None, ""


class Shard:
    def __init__(self, prop, binary, tier, seed, idx, n, work, extra):
        self.prop, self.binary, self.tier, self.seed = prop, binary, tier, seed
        self.idx, self.n, self.work, self.extra = idx, n, work, extra
        self.results, self.viols, self.inconclusive = [], [], []
        self.hashes = set()
        self.digests = {}

    def cmd(self, more, out, note):
        return [self.binary, self.prop, "--tier", self.tier, "--seed", str(self.seed), "--shard", str(self.idx),
                "--nshards", str(self.n), "--out", out, "--note", note, "--dir", self.work] + self.extra + more

    def once(self, more, tag, wall):
        out = os.path.join(self.work, "out.%d.%s" % (self.idx, tag))
        note = os.path.join(self.work, "note.%d.%s" % (self.idx, tag))
        err = os.path.join(self.work, "err.%d.%s" % (self.idx, tag))
        env = dict(os.environ)
        env.update(san_env(self.idx % 4 == 3))
        env["TMPDIR"] = self.work
        if mode_of(self.prop)[1] in ("work", "poison", "full"):
            env["VH_AS_MB"] = "3500"
        with open(err, "wb") as e:
            p = subprocess.Popen(self.cmd(more, out, note), stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL,
                                 env=env, cwd=self.work, start_new_session=True)
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 98
        size = os.path.getsize(err)
        with open(err, "rb") as f:
            if size > 400000:
                f.seek(size - 400000)
            text = f.read().decode("latin-1")
        res = None
        try:
            res = json.loads(read(out).decode())
        except (OSError, ValueError):
            pass
        if res is not None and res.get("complete") and os.path.exists(out + ".hashes"):
            b = read(out + ".hashes")
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if res is not None and os.path.exists(out + ".digest"):
            b = read(out + ".digest")
            q = struct.unpack("<%dQ" % (len(b) // 8), b)
            self.digests.update(zip(q[0::2], q[1::2]))
        return rc, text, res, note

    def run(self):
        frm = 0
        for attempt in range(6):
            rc, text, res, note = self.once(["--from", str(frm)], "a%d" % attempt, 36000 if self.tier == "thorough" else 800)
            if res is not None:
                self.results.append(res)
            if rc == 0 and res is not None and res.get("complete"):
                return self
            if rc == 97:
                raise HarnessError("harness refused to run: " + text[-500:])
            cur, inp = read_note(note)
            if cur is None:
                raise HarnessError("harness died before the first case (rc %d): %s" % (rc, text[-2000:]))
            if rc == 98 or "VH-CASE-TIMEOUT" in text:
                # inconclusive until it happens again, alone and with three times the allowance
                rc2, text2, res2, _ = self.once(["--case", str(cur), "--cpu", "180"], "t%d" % attempt, 2000)
                if rc2 == 98 or "VH-CASE-TIMEOUT" in text2:
                    self.viols.append(dict(key="hang", detail="one case used more than 180 s of processor time", input=inp, case=cur, times=1))
                    return self   # one is enough, and each takes minutes
                elif rc2 != 0:
                    self.crash(rc2, text2, inp, cur)
                else:
                    self.inconclusive.append("case %d timed out once" % cur)
                    self.results.append(res2)
            elif rc == -9:
                # killed from outside (memory guard): try that case again alone
                rc2, text2, res2, _ = self.once(["--case", str(cur)], "k%d" % attempt, 2000)
                if rc2 == -9:
                    raise HarnessError("case %d was killed twice (out of memory?)" % cur)
                if rc2 != 0:
                    self.crash(rc2, text2, inp, cur)
                elif res2:
                    self.results.append(res2)
            else:
                self.crash(rc, text, inp, cur)
            frm = cur + 1
        return self

    def crash(self, rc, text, inp, cur):
        key = crash_key(self.prop, text, rc)
        i = max(text.find("ERROR: "), 0) or max(text.find("runtime error"), 0) or max(text.find("WARNING: ThreadSanitizer"), 0)
        self.viols.append(dict(key=key, detail="the code under test stopped (status %d): %s" % (rc, text[max(0, i - 200):i + 3000] if text else "no output"),
                               input=inp, case=cur, times=1))


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except OSError:
        return {"findings": []}


def matches(finding, prop, v):
    if finding.get("status") != "known" or finding["property"] != prop:
        return False
    if finding["key"] != v["key"]:
        return False
    return finding.get("input_contains", "") in v["input"]


def text_of(binary, s, case):
    path = os.path.join(s.work, "text")
    if os.path.exists(path):
        os.unlink(path)
    env = dict(os.environ, VH_TEXT=path, VH_AS_MB="3500", VH_NOFILL="1")
    cmd = [binary, s.prop, "--tier", s.tier, "--seed", str(s.seed), "--case", str(case), "--dir", s.work] + s.extra
    try:
        subprocess.run(cmd, env=env, cwd=s.work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        return read(path).decode("latin-1").split("\n")
    except (OSError, subprocess.TimeoutExpired):
        return []


def binary_of(bins, prop, idx):
    return bins[prop + "/odd"] if idx % 2 and prop + "/odd" in bins else bins[prop]


def compare_builds(prop, bins, shards, counters):
    """The same cases with the further builds: every result must be the same."""
    reported = set()
    looked = 0
    for variant, what, kind in PEERS[mode_of(prop)[1]]:
        others = [Shard(prop, bins[peer(prop, variant)], s.tier, s.seed, s.idx, s.n, s.work + "." + variant, s.extra) for s in shards]
        os.makedirs(others[0].work, exist_ok=True)
        os.environ["VH_NOFILL"] = "1"
        with cf.ThreadPoolExecutor(len(others)) as ex:
            list(ex.map(lambda s: s.run(), others))
        del os.environ["VH_NOFILL"]
        n = differ = 0
        for s, o in zip(shards, others):
            for v in o.viols:
                s.viols.append(v)
            for case in sorted(set(s.digests) & set(o.digests)):
                n += 1
                if s.digests[case] == o.digests[case]:
                    continue
                differ += 1
                if looked >= 40 or differ > 25:
                    continue
                looked += 1
                a, b = text_of(s.binary, s, case), text_of(o.binary, o, case)
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                x, y = (a[i] if i < len(a) else "(nothing)"), (b[i] if i < len(b) else "(nothing)")
                name = re.sub(r"\[\d+\]", "", re.split(r"[=: ]", x.strip())[0]).split(".")[-1][:60] or "result"
                reported.add(kind + name)
                inp = next((t for t in a[i:] if t.startswith("-- end of result; ")), "")[18:]
                s.viols.append(dict(key="%s: %s" % (kind, name), case=case, times=1, input=inp, builds=[mode_of(prop)[1], variant],
                                    detail="with the first build: %s\nwith the build %s: %s" % (x[:300], what, y[:300])))
        counters["cases compared with a build " + what] = n
        shutil.rmtree(others[0].work, ignore_errors=True)


def cannot_build(prop, tier, seed, e, t0):
    """The library cannot even be compiled in a configuration it offers."""
    rep = os.path.join(BUILD, "replay")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(rep, "%s-build.json" % prop)
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, key="the small-footprint build cannot be compiled", input=e.src, detail=str(e)), f, indent=1)
    print("  %s\n%s\nVIOLATION property=%s replay=%s" % (prop, e, prop, path))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", violations=1, wall_s=round(time.time() - t0, 2),
                       coverage=dict(evaluations=1, distinct_nontrivial=1, rule="one source file that cannot be compiled", samples=[e.src])), f, indent=1)
    return 1


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    # one build at a time per directory
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            bins, cli = build([prop])
        except BuildFailed as e:
            return cannot_build(prop, tier, seed, e, t0)
    t1 = time.time()
    work = os.path.join(BUILD, "work", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    extra = []
    if cli:
        os.environ["VH_CLI"] = cli
    if os.environ.get("VH_CASES"):
        extra += ["--cases", os.environ["VH_CASES"]]
    rules = {}
    n = NCPU
    shards = [Shard(prop, binary_of(bins, prop, i), tier, seed, i, n, work, extra) for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda s: s.run(), shards))
    pair_counts = {}
    if mode_of(prop)[1] in PEERS:
        compare_builds(prop, bins, shards, pair_counts)
    rule = subprocess.run([bins[prop], "--rule", prop], stdout=subprocess.PIPE).stdout.decode("latin-1").strip()
    # merge
    ev = 0
    counters, maxima, samples, viols, inconclusive = {}, {}, [], {}, []
    hashes = set()
    for s in shards:
        hashes |= s.hashes
        inconclusive += s.inconclusive
        for r in s.results:
            ev += r["evaluations"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in r["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            samples += r["samples"][:1]
            for v in r["violations"]:
                s.viols.append(v)
        for v in s.viols:
            if v["key"] in viols:
                viols[v["key"]]["times"] += v["times"]
            else:
                viols[v["key"]] = dict(v)
    counters.update(pair_counts)
    known = load_known()["findings"]
    fresh, seen = [], []
    for v in viols.values():
        k = next((f for f in known if matches(f, prop, v)), None)
        (seen if k else fresh).append((v, k))
    for v, k in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = os.path.join(BUILD, "replay")
    os.makedirs(rep, exist_ok=True)
    for v, _ in fresh:
        path = os.path.join(rep, "%s-%s.json" % (prop, sha(v["key"])[:12]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, nshards=n, extra=extra, **v), f, indent=1)
        print("  %s [%s] (%d times, case %d)\n    %s" % (prop, v["key"], v["times"], v["case"], v["detail"][:1500].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    cov = dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=rule, samples=samples[:6], observed=counters)
    if maxima:
        cov["maxima"] = maxima
    if inconclusive:
        cov["inconclusive"] = inconclusive
    cov["processes"] = n
    cov["build_s"] = round(t1 - t0, 1)
    known_list = ["%s" % k["what"] for _, k in seen]
    if known_list:
        cov["known_findings_seen"] = known_list
    os.makedirs(EVID, exist_ok=True)
    assume = ["clang 18 and its sanitizer runtimes report every violation they are documented to detect",
              "the expected values come from the harness's own reading of ITU-T H.265 and of the project's documentation"]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=assume,
                       wall_s=round(wall, 2), violations=len(fresh)), f, indent=1)
        f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s seed %d: %d evaluations, %d distinct, %d violation keys, %.1f s (build %.1f s)" %
          (prop, tier, seed, ev, len(hashes), len(fresh), wall, t1 - t0))
    if fresh:
        return 1
    if ev == 0 or len(hashes) < 2:
        print("no verdict: the workload observed nothing")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop = v["property"]
    try:
        bins, cli = build([prop])
    except BuildFailed as e:
        print(e)
        return 1
    if "case" not in v:
        return 0   # what could not be compiled can be compiled now
    if cli:
        os.environ["VH_CLI"] = cli
    env = dict(os.environ)
    work = os.path.join(BUILD, "work", "replay.%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    cmd = [binary_of(bins, prop, v["case"] % v["nshards"]), prop, "--tier", v["tier"], "--seed", str(v["seed"]), "--case", str(v["case"]), "--dir", work] + v.get("extra", [])
    print("+", " ".join(cmd))
    rc = 0
    for reuse in (False, True):
        env.update(san_env(reuse))
        rc = rc or subprocess.run(cmd, env=env, cwd=work).returncode
    shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "check":
        return check(a[1])
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "setup":
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            props = [c["property"] for c in json.load(f)["checks"]]
        build(props)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("no verdict: %s" % e)
        sys.exit(2)
