"""From /repo's working tree to the LLVM IR the symbolic executor runs."""
import glob, os, re, shutil, subprocess, sys, time

HOOK = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env(target):
    e = dict(os.environ)
    e.update(
        HOME=os.environ.get("HOME", "/root"),
        PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=target,
        RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros" + (" --cfg hastur_verif" if HOOK else ""),
    )
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    t = os.path.join(ROOT, "engine", "target")
    e = env(t)
    e["RUSTFLAGS"] = "-A warnings"
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "engine"), env=e)
    return os.path.join(t, "release", "lsym")


def forget(t):
    """Make cargo rebuild hastur whatever the time stamps of its files say"""
    for f in glob.glob(os.path.join(t, "debug", ".fingerprint", "hastur-*")):
        shutil.rmtree(f, ignore_errors=True)


def build_native():
    t = os.path.join(ROOT, "harness", "native", "target")
    forget(t)
    run(["cargo", "build", "--offline"], cwd=os.path.join(ROOT, "harness", "native"), env=env(t))
    return os.path.join(t, "debug", "replay")


def build_bitcode():
    t = os.path.join(ROOT, "harness", "ir", "target")
    d = os.path.join(t, "debug", "deps")
    pat = os.path.join(d, "harness_ir*.lto.after-restriction.bc")
    e = env(t)
    e["RUSTFLAGS"] += " -C save-temps"
    forget(t)
    for f in glob.glob(pat):
        os.remove(f)
    for f in glob.glob(os.path.join(d, "libharness_ir*.so")) + glob.glob(os.path.join(t, "debug", "libharness_ir*")):
        os.remove(f)
    run(["cargo", "build", "--offline"], cwd=os.path.join(ROOT, "harness", "ir"), env=e)
    r = glob.glob(pat)
    if len(r) != 1:
        raise BuildError("no LTO bitcode produced: %r" % r)
    return r[0]


def tool(name):
    sysroot = subprocess.run(
        ["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env("/nonexistent")
    ).stdout.strip()
    return os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


DEF = re.compile(r"^define .*? @(\"[^\"]+\"|[\w.$]+)\(")


def replace_bodies(src):
    """Give a few runtime functions a model body: SipHash (the hash value is
    irrelevant to behaviour: it only picks a bucket), panics (the engine
    classifies them), so that their code is not executed symbolically."""
    out = []
    it = iter(src.split("\n"))
    for line in it:
        m = DEF.match(line)
        body = None
        if m:
            n = m.group(1)
            if "4core4hash3sip" in n and "6Hasher" in n:
                if "5write" in n or "9write_str" in n or "short_write" in n:
                    if " void @" in line:
                        body = "  ret void"
                elif "6finish" in n:
                    if " i64 @" in line:
                        body = "  ret i64 0"
            elif "4core9panicking9panic_fmt" in n:
                args = ", ".join(params(line, 3))
                body = "  call void @lsym_panic(%s)\n  unreachable" % args
            elif "4core6result13unwrap_failed" in n or "4core6option13expect_failed" in n:
                a = params(line, 5 if "unwrap_failed" in n else 3)
                body = (
                    "  %%v1 = shl i64 %s, 1\n  %%v2 = or i64 %%v1, 1\n  %%v3 = inttoptr i64 %%v2 to ptr\n"
                    "  call void @lsym_panic(%s, ptr %%v3, %s)\n  unreachable" % (a[1].split()[1], a[0], a[-1])
                )
            elif "3std9panicking11begin_panicReE" in n and n.startswith("_RINv"):
                # panic!("text") of the 2018 edition
                a = params(line, 3)
                body = (
                    "  %%v1 = shl i64 %s, 1\n  %%v2 = or i64 %%v1, 1\n  %%v3 = inttoptr i64 %%v2 to ptr\n"
                    "  call void @lsym_panic(%s, ptr %%v3, %s)\n  unreachable" % (a[1].split()[1], a[0], a[2])
                )
            elif "3std9panicking15panic_with_hook" in n or ("3std9panicking11begin_panic" in n and n.startswith("_RINv")):
                body = "  call void @lsym_panic(ptr inttoptr (i64 1 to ptr), ptr inttoptr (i64 1 to ptr), ptr null)\n  unreachable"
            elif "4core9panicking18panic_nounwind_fmt" in n or re.search(r"4core9panicking\d+panic_nounwind", n) or "panic_cannot_unwind" in n:
                body = "  call void @lsym_panic_nounwind()\n  unreachable"
        out.append(line)
        if body is not None:
            if not line.rstrip().endswith("{"):
                raise BuildError("odd define line: " + line)
            out.append("start:")
            out.append(body)
            for line in it:
                if line == "}":
                    break
            out.append("}")
    out.append("declare void @lsym_panic(ptr, ptr, ptr)")
    out.append("declare void @lsym_panic_nounwind()")
    return "\n".join(out)


def params(line, n):
    m = DEF.match(line)
    i = line.index("(", m.end() - 1) + 1
    depth, cur, parts = 0, "", []
    while True:
        c = line[i]
        if c == "(":
            depth += 1
        if c == ")":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        parts.append(cur)
    r = []
    for p in parts:
        p = p.split()
        r.append("%s %s" % (p[0], p[-1]))
    if len(r) != n:
        raise BuildError("panic_fmt signature changed: " + line)
    return r


def prepare(bc, entries, out):
    opt = tool("opt")
    g = out + ".g.ll"
    run([opt, "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(entries), bc, "-S", "-o", g])
    s = open(g).read()
    s = replace_bodies(s)
    open(g, "w").write(s)
    run([opt, "--strip-debug", "-passes=default<O1>", "--vectorize-loops=false", "--vectorize-slp=false", "--max-loads-per-memcmp=0", g, "-S", "-o", out])
    os.remove(g)
    s = open(out).read()
    k = [0]

    def split(m):
        # the executor's words are 64 bits wide
        k[0] += 1
        v, ptr = int(m.group(1)) % (1 << 128), m.group(2)
        return (
            "  store i64 %d, ptr %s, align 8\n  %%lsym%d = getelementptr i8, ptr %s, i64 8\n  store i64 %d, ptr %%lsym%d, align 8"
            % (v % (1 << 64), ptr, k[0], ptr, v >> 64, k[0])
        )

    s = re.sub(r"^  store i128 (-?\d+), ptr (%[\w.]+), align \d+.*$", split, s, flags=re.M)
    open(out, "w").write(s)
    return out
