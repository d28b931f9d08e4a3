#!/usr/bin/env python3
"""stdoverlay.py GOROOT DIR: write to DIR copies of standard library files with
hooks at every system call that reads or changes files, and at time.Now, and
DIR/overlay.json for go build -overlay. The hooks are unset, and change nothing,
until the harness sets them: syscall.VerifHook and time.VerifNow."""
import json, os, re, sys

root, out = sys.argv[1], sys.argv[2]
replace = {}


def edit(path, funcs, prefix, extra):
    src = open(os.path.join(root, "src", path)).read()
    for name, (args, n) in funcs.items():
        m = re.search(r"^func %s\([^\n]*\{\n" % name, src, re.M)
        if not m:
            sys.exit(f"stdoverlay: no {name} in {path}")
        p = prefix
        ret = "return verifN, verifErr" if n else "return verifErr"
        code = f'\tif {p}VerifHook != nil {{\n\t\tif verifN, verifErr, verifStop := {p}VerifHook("{name.lower()}", {args}); verifStop {{\n\t\t\t_ = verifN\n\t\t\t{ret}\n\t\t}}\n\t}}\n'
        src = src[: m.end()] + code + src[m.end():]
    src += extra
    dst = os.path.join(out, path.replace("/", "_"))
    open(dst, "w").write(src)
    replace[os.path.join(root, "src", path)] = dst


edit("syscall/zsyscall_linux_amd64.go", {
    "openat": ("dirfd, path, 0, \"\", flags, nil", True),
    "unlinkat": ("dirfd, path, 0, \"\", flags, nil", False),
    "Mkdirat": ("dirfd, path, 0, \"\", 0, nil", False),
    "Renameat": ("olddirfd, oldpath, newdirfd, newpath, 0, nil", False),
    "linkat": ("olddirfd, oldpath, newdirfd, newpath, 0, nil", False),
    "symlinkat": ("newdirfd, newpath, 0, oldpath, 0, nil", False),
    "Truncate": ("-100, path, 0, \"\", 0, nil", False),
    "Ftruncate": ("fd, \"\", 0, \"\", 0, nil", False),
    "Getdents": ("fd, \"\", 0, \"\", 0, buf", True),
    "read": ("fd, \"\", 0, \"\", 0, p", True),
    "write": ("fd, \"\", 0, \"\", 0, p", True),
    "pwrite": ("fd, \"\", 0, \"\", 0, p", True),
}, "", """
// VerifHook, when set, is called before a system call on files, and stands in
// for it when it returns true.
var VerifHook func(op string, fd int, path string, fd2 int, path2 string, flags int, data []byte) (int, error, bool)
""")
edit("internal/syscall/unix/at.go", {
    "Unlinkat": ("dirfd, path, 0, \"\", flags, nil", False),
    "Openat": ("dirfd, path, 0, \"\", flags, nil", True),
    "Mkdirat": ("dirfd, path, 0, \"\", 0, nil", False),
    "Renameat": ("olddirfd, oldpath, newdirfd, newpath, 0, nil", False),
    "Linkat": ("olddirfd, oldpath, newdirfd, newpath, 0, nil", False),
    "Symlinkat": ("newdirfd, newpath, 0, oldpath, 0, nil", False),
}, "syscall.", "")

path = "time/time.go"
src = open(os.path.join(root, "src", path)).read()
m = re.search(r"^func Now\(\) Time \{\n", src, re.M)
src = src[: m.end()] + "\tif VerifNow != 0 {\n\t\treturn Time{0, VerifNow + unixToInternal, Local}\n\t}\n" + src[m.end():]
src += "\n// VerifNow, when set, is the time now in seconds.\nvar VerifNow int64\n"
dst = os.path.join(out, "time_time.go")
open(dst, "w").write(src)
replace[os.path.join(root, "src", path)] = dst

json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"))
