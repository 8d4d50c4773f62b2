#!/usr/bin/env python3
"""mutate.py DIR COUNT SEED [file-substring ...]   measures what the checks see.

Applies one small random change at a time to a scratch copy of the library's
CPU sources in DIR (made from /repo), builds the simulator from it and runs the
properties that concern the file for a short time. Prints one line per change;
survivors are to be read by a person (many change nothing that matters)."""
import json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
T = float(os.environ.get("MUT_T", "25"))
GEN = ["C12", "C19", "C14"]
FILES = {
    "grid_data/sdp_grid_wstack_wtower.cpp": ["C01", "C01", "C02", "C02", "C20", "C19", "C12", "C14"],
    "grid_data/sdp_gridder_wtower_uvw.cpp": ["C03", "C03", "C03", "C01", "C02", "C12", "C19", "C14"],
    "grid_data/sdp_gridder_direct.cpp": ["C03", "C03", "C03", "C03", "C12", "C19", "C14", "C15"],
    "grid_data/sdp_gridder_clamp_channels.cpp": ["C04", "C04", "C04", "C04", "C01", "C12", "C19", "C15"],
    "grid_data/sdp_gridder_utils.cpp": ["C05", "C05", "C04", "C07", "C03", "C12", "C19", "C15"],
    "grid_data/sdp_gridder_grid_correct.cpp": ["C05", "C05", "C01", "C02", "C12", "C19", "C14", "C15"],
    "grid_data/sdp_gridder_wtower_height.cpp": ["C18", "C01", "C12", "C19", "C14", "C15", "C11", "C20"],
    "visibility/sdp_dft.cpp": ["C07", "C07", "C07", "C12", "C19", "C14", "C15", "C11"],
    "visibility/sdp_flagger.cpp": ["C08", "C08", "C08", "C08", "C12", "C19", "C14", "C15"],
    "station_beam/sdp_station.cpp": ["C09", "C09", "C09", "C12", "C19", "C14", "C15", "C11"],
    "station_beam/sdp_element_dipole.cpp": ["C09", "C09", "C09", "C12", "C19", "C14", "C15", "C11"],
    "station_beam/sdp_element_spherical_wave_harp.cpp": ["C09", "C09", "C09", "C12", "C19", "C14", "C15", "C11"],
    "fourier_transforms/sdp_fft.cpp": ["C06", "C06", "C06", "C13", "C19", "C14", "C15", "C11"],
    "fourier_transforms/sdp_swiftly.cpp": ["C10", "C10", "C10", "C13", "C19", "C14", "C15", "C18"],
    "utility/sdp_timer.cpp": ["C16", "C16", "C16", "C16", "C14", "C12", "C11", "C18"],
    "utility/sdp_logging.c": ["C17", "C17", "C17", "C17", "C12", "C11", "C20", "C18"],
    "utility/sdp_mem.cpp": ["C13", "C13", "C13", "C05", "C05", "C14", "C15", "C19"],
    "utility/sdp_thread_support.cpp": ["C13", "C12", "C20", "C01", "C14", "C11", "C15", "C19"],
    "utility/sdp_data_model_checks.c": ["C19", "C13", "C15", "C08", "C07", "C14", "C11", "C18"],
}
rnd = random.Random(SEED)


def lines_of(path):
    """(index, text) of the lines worth changing."""
    src = open(path).read().split("\n")
    res, depth, gpu, skip_depth = [], 0, False, None
    incomment = False
    cuda = 0
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("#if"):
            cuda += 1 if ("CUDA" in s or cuda or "OS_WIN" in s) else 0
        elif s.startswith("#endif") and cuda:
            cuda -= 1
        if cuda:
            continue
        if "/*" in s and "*/" not in s:
            incomment = True
        if "*/" in s:
            incomment = False
            continue
        if incomment or s.startswith("//") or not s:
            continue
        d0 = depth
        depth += l.count("{") - l.count("}")
        if "SDP_MEM_GPU" in s and "if" in s and skip_depth is None:
            skip_depth = d0
            started = False
            continue
        if skip_depth is not None:
            if d0 > skip_depth or "{" in l:
                started = True
            if started and depth <= skip_depth and "}" in l:
                skip_depth = None
            continue
        if depth == 0 or re.search(r"LOG_|CUDA|cuda|GPU|gpu|launch|kernel_name|\"", s) or s.startswith("#include") or s.startswith("template"):
            continue
        res.append(i)
    return src, res


def mutants(s):
    """All small changes of one line."""
    out = []
    code = s
    def sub(pat, rep, name):
        for m in re.finditer(pat, code):
            r = rep(m) if callable(rep) else rep
            out.append((name, code[:m.start()] + r + code[m.end():]))
    st = s.strip()
    if st.startswith("#pragma"):
        if "parallel" not in st:
            out.append(("drop pragma", ""))
        for cl in (r"\s*private\([^)]*\)", r"\s*reduction\([^)]*\)", r"\s*firstprivate\([^)]*\)"):
            sub(cl, "", "drop clause")
        return out
    sub(r"(?<![<>=!\-])<=(?!=)", "<", "<= to <")
    sub(r"(?<![<>=!\-])>=(?!=)", ">", ">= to >")
    sub(r"(?<= )<(?= )", "<=", "< to <=")
    sub(r"(?<= )>(?= )", ">=", "> to >=")
    sub(r"==", "!=", "== to !=")
    sub(r"!=", "==", "!= to ==")
    sub(r"&&", "||", "&& to ||")
    sub(r"\|\|", "&&", "|| to &&")
    sub(r"(?<= )\+(?= )", "-", "+ to -")
    sub(r"(?<= )-(?= )", "+", "- to +")
    sub(r"(?<= )\*(?= )", "/", "* to /")
    sub(r"(?<= )/(?= )", "*", "/ to *")
    sub(r"\+=", "=", "+= to =")
    sub(r"\+=", "-=", "+= to -=")
    sub(r"(?<=[ (\[])0(?=[ ;,)\]])", "1", "0 to 1")
    sub(r"(?<=[ (\[])1(?=[ ;,)\]])", "0", "1 to 0")
    sub(r"(?<=[ (\[])1(?=[ ;,)\]])", "2", "1 to 2")
    sub(r"(?<=[ (\[])2(?=[ ;,)\]])", "1", "2 to 1")
    sub(r"\bmin\b", "max", "min to max")
    sub(r"\bmax\b", "min", "max to min")
    sub(r"\bfloor\b", "ceil", "floor to ceil")
    sub(r"\bceil\b", "floor", "ceil to floor")
    sub(r"\bcos\b", "sin", "cos to sin")
    sub(r"\bcontinue;", "break;", "continue to break")
    sub(r"\bbreak;", "continue;", "break to continue")
    sub(r"\bfalse\b", "true", "false to true")
    sub(r"\btrue\b", "false", "true to false")
    sub(r"\breal\b", "imag", "real to imag")
    sub(r"(?<![a-z])u(?=[ ,;)\]])", "v", "u to v")
    sub(r"(?<=_)u(?=[ ,;)\]])", "v", "_u to _v")
    sub(r"(?<=_)v(?=[ ,;)\]])", "u", "_v to _u")
    m = re.match(r"(\s*(?:else )?if \()(.*)(\).*)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        out.append(("if true", m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3)))
        out.append(("if false", m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)))
    if st.endswith(";") and st.count("(") == st.count(")") and not re.match(r"(const |int|double|float|return|static|struct|size_t|sdp_\w+\*? \w+ =|auto|FP|std::\w+<|\w+_TYPE|}|else|case|break)", st):
        out.append(("drop statement", code[:len(code) - len(code.lstrip())] + ";"))
    if st.startswith("return"):
        out.append(("drop return", code[:len(code) - len(code.lstrip())] + ";"))
    return out


def build(repo, bd):
    env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=bd)
    p = subprocess.run([sys.executable, os.path.join(HERE, "build.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p.stdout.strip().split("\n")[-1] if p.returncode == 0 else None


def text_hash(exe):
    # machine code, without the line numbers that asserts or logs carry
    p = subprocess.run("objdump -d --no-show-raw-insn %s | sed 's/^ *[0-9a-f]*://' | sed 's/0x[0-9a-f]*//g;s/[0-9a-f]\\{6,\\}//g' | md5sum" % exe, shell=True, stdout=subprocess.PIPE)
    return p.stdout


def main():
    repo, bd = os.path.join(D, "repo"), os.path.join(D, "build")
    os.makedirs(D, exist_ok=True)
    if not os.path.exists(repo):
        os.makedirs(repo)
        shutil.copytree("/repo/src", os.path.join(repo, "src"), symlinks=True)
    known = os.path.join(D, "known")
    with open(known, "w") as f:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) sig=\[(.*?)\]", l)
            if m:
                f.write(m.group(2) + "\n")
    base = build(repo, bd)
    if not base:
        sys.exit("the unchanged tree does not build")
    files = [f for f in FILES if not ONLY or any(o in f for o in ONLY)]
    pool = []
    for f in files:
        p = os.path.join(repo, "src/ska-sdp-func", f)
        src, idx = lines_of(p)
        per = [(f, i, n, t) for i in idx for n, t in mutants(src[i])]
        pool += per
    rnd.shuffle(pool)
    # spread over lines: at most one change per line first
    seen, first, rest = set(), [], []
    for m in pool:
        (rest if (m[0], m[1]) in seen else first).append(m)
        seen.add((m[0], m[1]))
    pool = first + rest
    print("# %d candidate changes on %d lines" % (len(pool), len(first)), flush=True)
    done = tally = 0
    res = {}
    for f, i, name, new in pool:
        if done >= COUNT:
            break
        p = os.path.join(repo, "src/ska-sdp-func", f)
        orig = open(p).read()
        src = orig.split("\n")
        old = src[i]
        src[i] = new
        t0 = time.time()
        try:
            open(p, "w").write("\n".join(src))
            exe = build(repo, bd)
            if not exe:
                continue
            done += 1
            tag = "%s:%d [%s] %s => %s" % (f, i + 1, name, old.strip(), new.strip())
            ps = []
            for k, pr in enumerate(FILES[f]):
                ps.append((pr, subprocess.Popen([exe, "worker", "--prop", pr, "--start", str(1 + 7919 * SEED + k), "--stride", "8", "--tmax", str(T), "--known", known],
                                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            t1 = time.time()
            hit = None
            while time.time() - t1 < T + 60:
                for pr, q in ps:
                    if q.poll() is not None and hit is None:
                        o = q.stdout.read()
                        for l in o.split("\n"):
                            if l.startswith("VIOL "):
                                hit = (pr, json.loads(l[5:])["viol"][0]["sig"])
                            elif l.startswith("LOST ") and hit is None:
                                hit = (pr, l[:120])
                if hit or all(q.poll() is not None for _, q in ps):
                    break
                time.sleep(0.2)
            for _, q in ps:
                q.kill()
                q.wait()
            v = "KILLED" if hit else "SURVIVED"
            res[v] = res.get(v, 0) + 1
            print("%s %.0fs %s %s" % (v, time.time() - t1, tag, hit or ""), flush=True)
        finally:
            open(p, "w").write(orig)
    print("#", res)


main()
