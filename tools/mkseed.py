#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py. Development aid; no check uses it.

  mkseed.py [ID ...]      (re)write the given planted bugs, or all of them
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402
REPO, OUT, BASE = "/repo", "/verif/seeded", "9b16686"

RUST_SH = """#!/bin/bash
# Exit 0: the behaviour is right. Exit 1: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
lib="$(ls -t target/debug/deps/libasciidocr-*.rlib | head -1)" # the one just built
rustc --edition 2021 -A warnings "$here/demo.rs" -o "$work/demo" -L dependency=target/debug/deps \\
  --extern asciidocr="$lib" || exit 2
cd "$work" || exit 2
timeout 60 ./demo
"""
CLI_SH = """#!/bin/bash
# Exit 0: the behaviour is right. Exit 1: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
bin="$PWD/target/debug/asciidocr"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
%s
"""

TREE_SH = """#!/bin/bash
# Exit 0: the document has the tree it should have. Exit 1: it has not.
here="$(cd "$(dirname "$0")" && pwd)"
bin="$PWD/target/debug/asciidocr"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
cp "$here/doc.adoc" doc.adoc
timeout 60 "$bin" -x -b json -o - doc.adoc > out.txt 2> err.txt
python3 "$here/tree.py" out.txt > got.txt || exit 1
diff "$here/expected.txt" got.txt
"""
TREE_PY = """import json, sys


def inline(i):
    if i['name'] in ('text', 'charref', 'raw'):
        return i['value']
    if i['name'] == 'linebreak':
        return '<br>'
    roles = ''.join('.' + r for r in (i.get('metadata') or {}).get('roles', []))
    return '<%s%s%s>%s</>' % (i['variant'], ' ' + i['target'] if 'target' in i else '', roles, ''.join(map(inline, i.get('inlines', []))))


def block(b, depth):
    m = b.get('metadata') or {}
    marks = ['%s=%s' % kv for kv in sorted(m.get('attributes', {}).items())] + ['.' + r for r in m.get('roles', [])] + ['%' + o for o in m.get('options', [])]
    parts = [str(b[k]) for k in ('level', 'variant', 'target') if k in b]
    parts += ['%s=%r' % (k, ''.join(map(inline, b[k]))) for k in ('title', 'caption', 'terms', 'principal', 'inlines') if b.get(k)]
    print('  ' * depth + ' '.join([b['name']] + parts + marks))
    for c in b.get('blocks', []) + b.get('items', []):
        block(c, depth + 1)


text = open(sys.argv[1]).read()
block(json.loads(text[text.index('{\\n'):]), 0)
"""


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True, check=True).stdout


def main():
    if git("status", "--porcelain").strip():
        sys.exit("/repo is not clean")
    want = sys.argv[1:] or list(SEEDS)
    for sid in want:
        s = SEEDS[sid]
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    sys.exit("%s: %d matches of %r in %s" % (sid, t.count(old), old[:60], f))
                open(p, "w").write(t.replace(old, new))
            diff = git("diff")
            # every removed line must be a line of the original repository
            for f in {e[0] for e in s["edits"]}:
                orig = set(git("show", BASE + ":" + f).splitlines())
                for l in diff.splitlines():
                    if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                        print("%s: not an original line: %s" % (sid, l))
        finally:
            git("checkout", "--", ".")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        sh = os.path.join(d, "demo.sh")
        if "rust" in s:
            open(os.path.join(d, "demo.rs"), "w").write(s["rust"])
            open(sh, "w").write(RUST_SH)
        elif "tree" in s:
            open(os.path.join(d, "doc.adoc"), "w").write(s["tree"])
            open(os.path.join(d, "tree.py"), "w").write(TREE_PY)
            # the tree of the unchanged code (built); read it before keeping the bug
            with open(os.path.join(d, "expected.txt"), "w") as f:
                out = subprocess.run([REPO + "/target/debug/asciidocr", "-x", "-b", "json", "-o", "-", os.path.join(d, "doc.adoc")], capture_output=True, text=True).stdout
                open("/tmp/mkseed.out", "w").write(out)
                tree = subprocess.run(["python3", os.path.join(d, "tree.py"), "/tmp/mkseed.out"], capture_output=True, text=True, check=True).stdout
                os.remove("/tmp/mkseed.out")
                f.write(tree)
                print(tree)
            open(sh, "w").write(TREE_SH)
        else:
            open(sh, "w").write(CLI_SH % s["cli"].strip())
        os.chmod(sh, 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", sid)


main()
