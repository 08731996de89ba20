"""Running TLC."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.path.join(VERIF, "tla")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def build_java():
    """compile the TLC overrides if they are missing or stale"""
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(glob.glob(os.path.join(TLA, "java", "*.java")))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        outs = [os.path.join(BUILD, os.path.basename(s)[:-5] + ".class") for s in src]
        if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for o, s in zip(outs, src)):
            return
        subprocess.run(["javac", "-cp", JARS, "-d", BUILD] + src, check=True)


def run_tlc(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, extra=(), without=()):
    """run TLC on tla/<module>.tla; returns dict(rc, out, states, distinct, depth, secs, error)"""
    build_java()
    classes = BUILD
    if without:                              # leave some classes out: TLC evaluates the definitions
        classes = tempfile.mkdtemp(prefix="tlcpure")
        for f in glob.glob(os.path.join(BUILD, "*.class")):
            if os.path.basename(f).split("$")[0].split(".")[0] not in without:
                shutil.copy(f, classes)
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cp = classes + ":" + JARS
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", cp, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=TLA, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT", -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if without:
            shutil.rmtree(classes, ignore_errors=True)
    out = "\n".join(l for l in out.splitlines() if "Loading" not in l or "override" not in l)
    r = dict(rc=rc, out=out, secs=time.time() - t0, states=0, distinct=0, depth=0, error="")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m.group(1))
    m = re.search(r"Error:[\s\S]{0,3000}", out)
    if m or rc != 0:
        r["error"] = (m.group(0) if m else out[-2000:])
    return r


VERDICT = re.compile(r'<<\s*"VERDICT",\s*"((?:[^"\\]|\\.)*)",\s*"(\d+)",\s*<<((?:\s*"(?:[^"\\]|\\.)*",?)*\s*)>>\s*>>', re.S)


def verdicts(out):
    """{scenario name: (steps, [clause, ...])}"""
    res = {}
    for m in VERDICT.finditer(out):
        parts = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))
        res[m.group(1)] = (int(m.group(2)), parts)
    return res
