"""Adds planted changes to seeded/: plant.py CASES.py [id...]. CASES.py defines CASES: a list of dicts with
id, property, edits: [(file, old, new)], demo (Go source of main), needs, what. Each change is verified in a scratch copy of /repo:
it builds, the stable tests pass, the demonstration passes without it and fails with it. It is then kept."""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant/repo"
ENV = ". /opt/vp/env.sh; cd %s && " % SCRATCH
DEMO = '''#!/bin/bash
# Runs a small program against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<END
{"Replace":{"$PWD/wordbreak/hyphenator/zzdemo/main.go":"$here/main.go"{TEX}}}
END
go run {FLAGS}-overlay "$tmp/overlay.json" ./wordbreak/hyphenator/zzdemo
'''
HEAD = 'package main\n\nimport (\n%s)\n\nfunc check(ok bool, what ...interface{}) {\n\tif !ok {\n\t\tfmt.Println(append([]interface{}{"BROKEN:"}, what...)...)\n\t\tos.Exit(1)\n\t}\n}\n\n'


def sh(cmd, timeout=400):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def fresh():
    shutil.rmtree("/tmp/plant/repo", True)
    subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    sh("git -C %s checkout -q -- ." % SCRATCH)


def main():
    spec = importlib.util.spec_from_file_location("cases", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    fresh()
    for c in m.CASES:
        if sys.argv[2:] and c["id"] not in sys.argv[2:]:
            continue
        sh("git -C %s checkout -q -- ." % SCRATCH)
        d = "/tmp/plant/" + c["id"]
        shutil.rmtree(d, True)
        os.makedirs(d)
        src = c["demo"]
        if not src.startswith("package"):
            imp = ["fmt", "os"] + c.get("imports", [])
            full = {"linebreak": "github.com/fredbi/go-typeset/linebreak", "ansi": "github.com/fredbi/go-typeset/terminal/ansi", "runes": "github.com/fredbi/go-typeset/terminal/runes",
                    "runesio": "github.com/fredbi/go-typeset/terminal/runes/runesio", "hyphenator": "github.com/fredbi/go-typeset/wordbreak/hyphenator",
                    "trie": "github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie", "punctuator": "github.com/fredbi/go-typeset/wordbreak/punctuator",
                    "tokenizer": "github.com/fredbi/go-typeset/wordbreak/tokenizer", "attributes": "github.com/fredbi/go-typeset/attributes"}
            src = HEAD % "".join('\t"%s"\n' % full.get(i, i) for i in imp) + src
        open(d + "/main.go", "w").write(src)
        open(d + "/demo.sh", "w").write(DEMO.replace("{FLAGS}", c.get("flags", "")).replace("{TEX}", "".join(',"$PWD/wordbreak/hyphenator/languages/%s":"$here/%s"' % (n, n) for n in c.get("tex", {}))))
        for n, t in c.get("tex", {}).items():
            open(d + "/" + n, "w", newline="").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": c["property"], "needs": c["needs"], "what_it_breaks": c["what"]}, open(d + "/meta.json", "w"), indent=1)
        p = sh("cd %s && bash %s/demo.sh" % (SCRATCH, d))
        if p.returncode != 0:
            print(c["id"], "FAIL demo on the unchanged tree:", p.stdout.decode("utf-8","replace")[-600:])
            continue
        ok = True
        for f, old, new in c["edits"]:
            s = open(SCRATCH + "/" + f).read()
            if s.count(old) < 1:
                print(c["id"], "FAIL no match in", f, repr(old[:80]))
                ok = False
                break
            s = s.replace(old, new, 1)
            open(SCRATCH + "/" + f, "w").write(s)
        if not ok:
            continue
        sh(ENV + "gofmt -w $(git diff --name-only)")
        p = sh("git -C %s diff" % SCRATCH)
        open(d + "/patch.diff", "wb").write(p.stdout)
        # removed lines are of the original repository
        mine = 0
        orig = 0
        for f in {e[0] for e in c["edits"]}:
            hunk = sh("git -C %s diff -U0 %s" % (SCRATCH, f)).stdout.decode("utf-8","replace")
            blame = sh("git -C %s blame -s HEAD -- %s" % (SCRATCH, f)).stdout.decode("utf-8","replace").split("\n")
            import re
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                for l in blame[a - 1:a - 1 + n]:
                    if l.startswith("^34c7f4"):
                        orig += 1
                    else:
                        mine += 1
        p = sh(ENV + "go build ./... && go vet ./linebreak >/dev/null 2>&1; go build ./...")
        if p.returncode != 0:
            print(c["id"], "FAIL build:", p.stdout.decode("utf-8","replace")[-600:])
            continue
        p = sh(ENV + "go test -json -vet=off -count=1 -timeout 5m ./...")
        st = {}
        for l in p.stdout.decode("utf-8","replace").split("\n"):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if "Test" in e and e["Action"] in ("pass", "fail"):
                st[e["Package"] + "/" + e["Test"]] = e["Action"]
        bad = [t for t in stable if st.get(t) != "pass"]
        other = [t for t, a in st.items() if a == "fail" and t not in stable]
        if bad:
            print(c["id"], "FAIL stable tests:", bad[:3])
            continue
        codes = [sh("cd %s && bash %s/demo.sh" % (SCRATCH, d)) for _ in range(2)]
        if any(p.returncode == 0 for p in codes):
            print(c["id"], "FAIL demo passes with the change")
            continue
        dst = HERE + "/seeded/" + c["id"]
        shutil.rmtree(dst, True)
        shutil.copytree(d, dst)
        print(c["id"], "kept: orig", orig, "mine", mine, "| other tests failing:", other[:2], "|", codes[0].stdout.decode("utf-8","replace").strip().split("\n")[0][:150])
    sh("git -C %s checkout -q -- ." % SCRATCH)


main()
