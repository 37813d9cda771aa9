"""Runs TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, args=(), timeout=600, heap="1500m", workers="1"):
    """Returns (exit code, output, seconds).  All of TLC's files go to a scratch directory."""
    work = tempfile.mkdtemp(prefix="zkv-tlc-")
    try:
        cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss32m", "-Djava.io.tmpdir=" + work,
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dzkv=1",
               "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-fp", "0", "-workers", str(workers),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=work)
        except subprocess.TimeoutExpired as x:
            raise TlcError("TLC timed out on %s\n%s" % (module, (x.stdout or b"").decode(errors="replace")[-2000:]))
        return pr.returncode, pr.stdout.decode(errors="replace"), time.time() - t
    finally:
        shutil.rmtree(work, ignore_errors=True)


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states generated", out) or re.findall(r"([\d,]+) states checked", out)
        n = int(m2[-1].replace(",", "")) if m2 else 0
        return n, n
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


_RES = re.compile(r'<<\s*"ZKRESULT",\s*"(.*)"\s*>>', re.S)


def results(out, key="ZKRESULT"):
    """The JSON values printed as <<key, json>>."""
    res = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % key, out):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def brief(out):
    """The error message of TLC without the states."""
    i = out.find("Error:")
    if i < 0:
        return out[-1500:]
    keep = []
    for l in out[i:].split("\n"):
        if l.startswith("Error: The behavior"):
            break
        keep.append(l[:300])
    j = out.find("nested expressions")
    k = out.rfind("\n\n", 0, j) if j > 0 else -1
    return "\n".join(keep[:25]) + (out[j:j + 1500] if j > 0 else "")


def check_trace(path, module="ZkTrace", timeout=600, heap="2g"):
    """Validate one recorded trace; returns the verdict record, plus counts."""
    code, out, secs = run(module, env={"ZK_TRACE": path}, timeout=timeout, heap=heap)
    res = results(out)
    if code != 0 or not res:
        raise TlcError("TLC failed on %s (%s)\n%s" % (path, code, brief(out)))
    r = res[-1]
    r["states"], r["distinct"] = counts(out)
    r["secs"] = secs
    if r["last"] != r["len"] + 1:
        raise TlcError("trace not consumed: %s\n%s" % (r, out[-3000:]))
    return r
