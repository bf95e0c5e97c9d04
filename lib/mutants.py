"""Mutation analysis of the checks: mutants.py list|run OUT [file...].

list: small changes of the library (lib/mutants) that build and pass the stable tests, one JSON object per line in OUT.
run OUT RESULT: runs the checks on each of them, until one reports a violation; those that survive are to be examined by hand."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VF_REPO", "/repo")
FILES = {
    "terminal/runes/fields.go": "16", "terminal/runes/options.go": "19 20", "terminal/runes/width.go": "20 19", "terminal/runes/lookup.go": "19 20", "terminal/runes/runesio/writer.go": "23",
    "terminal/runes/runesio/slice_reader.go": "21 22", "terminal/ansi/ansi.go": "10 09 06", "linebreak/linebreaker.go": "06 02 03 04 01 05 26", "linebreak/knuth_plass.go": "03 04 02 01 05 26",
    "linebreak/options.go": "03 04 02 01", "linebreak/knuth_plass_types.go": "04 03 02 06 01", "wordbreak/hyphenator/dictionary.go": "27 12 13 11 15", "wordbreak/hyphenator/languages.go": "14",
    "wordbreak/hyphenator/options.go": "11 14 12", "wordbreak/hyphenator/hyphenator.go": "11 12 13 18", "wordbreak/hyphenator/cache.go": "15 14", "wordbreak/hyphenator/internal/trie/rune_trie.go": "24 12",
    "wordbreak/tokenizer/tokenizer.go": "16", "wordbreak/punctuator/punctuator.go": "17", "attributes/iface.go": "08 07", "attributes/attribute.go": "08 07 06", "attributes/state.go": "07 08 06"}


def sh(cmd, timeout=600, env=None):
    try:
        return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, b"timeout")


def scratch(i):
    d = "/tmp/mutants.%d.%d" % (os.getpid(), i)
    shutil.rmtree(d, True)
    subprocess.run(["cp", "-a", SRC, d], check=True)
    return d


def apply(d, m):
    src = open(SRC + "/" + m["file"], "rb").read()
    open(d + "/" + m["file"], "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])


def restore(d, m):
    shutil.copy(SRC + "/" + m["file"], d + "/" + m["file"])


def listing(out, files):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    p = sh("cd %s/lib/mutants && GOFLAGS=-mod=mod GO111MODULE=off go build -o /tmp/mutants.bin main.go && cd %s && /tmp/mutants.bin %s" % (HERE, SRC, " ".join(files)))
    ms = [json.loads(l) for l in p.stdout.decode().splitlines()]
    free = [scratch(i) for i in range(8)]

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            if sh("cd %s && go build ./... && go vet ./linebreak ./attributes 2>&1 | grep -q 'declared and not used' && exit 1; cd %s && go build ./..." % (d, d)).returncode != 0:
                return "no build"
            p = sh("cd %s && go test -json -vet=off -timeout 30s ./..." % d, timeout=120)
            st = {}
            for l in p.stdout.decode("utf-8", "replace").split("\n"):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if "Test" in e and e["Action"] in ("pass", "fail"):
                    st[e["Package"] + "/" + e["Test"]] = e["Action"]
            return "tests" if any(st.get(t) != "pass" for t in stable) else "passes"
        finally:
            restore(d, m)
            free.append(d)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, ms))
    with open(out, "w") as f:
        for m, r in zip(ms, res):
            if r == "passes":
                f.write(json.dumps(m) + "\n")
    for d in free:
        shutil.rmtree(d, True)
    print({r: res.count(r) for r in set(res)})


def run(src, out, slots=2):
    done = {json.dumps(json.loads(l)["m"], sort_keys=True) for l in open(out)} if os.path.exists(out) else set()
    ms = [m for m in (json.loads(l) for l in open(src)) if json.dumps(m, sort_keys=True) not in done]
    free = [scratch(i) for i in range(slots)]

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            log = []
            for p in FILES[m["file"]].split():
                t = time.time()
                r = sh("VF_REPO=%s python3 %s/lib/check.py C%s" % (d, HERE, p), timeout=900)
                log.append(["C" + p, r.returncode, round(time.time() - t)])
                if r.returncode == 1:
                    break
            v = "caught" if log[-1][1] == 1 else "survives" if all(x[1] == 0 for x in log) else "error"
            with open(out, "a") as f:
                f.write(json.dumps({"verdict": v, "log": log, "m": m}) + "\n")
        finally:
            restore(d, m)
            free.append(d)
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(one, ms))
    for d in free:
        shutil.rmtree(d, True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        listing(sys.argv[2], sys.argv[3:] or sorted(FILES))
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 2)
