"""Conversion tools against the library's readers.  argv: reader-executable and
the driver protocol of h.h.  The tools run in this process (runpy)."""
import contextlib, io, math, os, random, runpy, struct, subprocess, sys, traceback
import hashlib
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub"))
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
READER = sys.argv[1]
A = dict(zip([a[2:] for a in sys.argv[2::2]], sys.argv[3::2]))
TMP, THOROUGH = A["tmp"], A["tier"] == "thorough"
OUT = open(A["out"], "a")
counters = {}
samples_left = 2


def clean(s):
    return "".join(c if 32 <= ord(c) < 127 else "\\x%02x" % ord(c) for c in s)[:3500]


class Bad(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def write(name, text, mode="w"):
    p = os.path.join(TMP, name)
    with open(p, mode, **({} if "b" in mode else {"encoding": "utf8"})) as f:
        f.write(text)
    return p


def tool(name, args, stdin=None):
    """Runs a tool; any failure on valid input is a finding."""
    out = io.StringIO()
    argv, sin = sys.argv, sys.stdin
    sys.argv = [name] + args
    if stdin is not None:
        sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(REPO, "tool", name), run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            raise Bad(name + ":exit", "%s exits with %r on valid input: %s" % (name, e.code, out.getvalue()[-300:]))
    except Exception:
        raise Bad(name + ":raises", "%s fails on valid input: %s" % (name, traceback.format_exc()[-1500:]))
    finally:
        sys.argv, sys.stdin = argv, sin
    count("conversions")
    return out.getvalue()


def reader(*args, **kw):
    r = subprocess.run([READER] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=kw.get("input", b""), timeout=200)
    o = r.stdout.decode(errors="replace")
    if r.returncode != 0:
        raise Bad("reader-crash", "reader %s ends with %d: %s" % (args, r.returncode, r.stderr.decode(errors="replace")[-1500:]))
    if o.startswith("FAIL"):
        raise Bad("reader-refuses", "the library refuses the converted file %s: %s" % (args, o))
    if not o.startswith("OK"):
        raise RuntimeError("reader said " + o[:200])
    count("objects_read")
    return o.split("\n")


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def num(r, kind=0):
    """A number as Kaldi prints it, and its value."""
    k = r.random()
    if k < 0.1:
        s = "0"
    elif k < 0.2:
        s = str(r.randint(-9, 9))
    elif k < 0.3:
        s = "%.3e" % (r.gauss(0, 1) * 10 ** r.randint(-9, -3))
        s = s if kind == 0 else "%.6g" % r.gauss(0, 1)
    else:
        s = "%.6g" % (r.gauss(0, 1))
    return s


def vec_check(what, lines, want, exact=True):
    n = int(lines[0].split()[1])
    if n != len(want):
        raise Bad(what + "-size", "%s: %d values read, %d written" % (what, n, len(want)))
    for i, w in enumerate(want):
        g = float.fromhex(lines[1 + i])
        if exact:
            ok = g == f32(w)
        else:
            ok = g == w or abs(g - w) <= 2e-6 * abs(w) + 1e-38
        if not ok:
            raise Bad(what + "-value", "%s: value %d is %r, expected %r" % (what, i, g, w))
    count("values", len(want))


# ---------------------------------------------------------------- networks
def c_am(r):
    nl = r.choice(["\n", "\n", " \n"])
    ind = r.randint(1, 8)
    dim, prev, desc, comps, ref = ind, "input", [], [], []
    desc.append("input-node name=input dim=%d" % ind)
    L = R = 0
    depth = r.randint(1, 4)
    style = r.choice(["tdnn%d.%s", "Tdnn_%d_%s", "layer%d%s", "tdnn%d-%s"])
    names = []

    def mat(rows, cols):
        t = [[num(r) for _ in range(cols)] for _ in range(rows)]
        if r.random() < 0.5:
            s = " [\n" + "\n".join("  " + " ".join(x) + (" " if r.random() < 0.5 else "") for x in t) + " ]\n"
        else:
            s = " [\n" + "\n".join("  " + " ".join(x) for x in t) + " ]" + nl
        return s, np.array([[float(v) for v in x] for x in t])

    def vec(d, positive=False, big=False):
        t = [("%.6g" % (r.uniform(0.01, 9))) if positive else num(r) for _ in range(d)]
        return " [ " + " ".join(t) + " ]" + nl, np.array([float(v) for v in t])

    def node(name, inp):
        desc.append("component-node name=%s component=%s input=%s" % (name, name, inp))

    def affine(name, i, o):
        w, W = mat(o, i)
        b, B = vec(o)
        pre = r.choice(["<MaxChange> 0.75 <LearningRate> 0.001 ", "<LearningRate> 1e-05 ", "<MaxChange> 2 <L2Regularize> 0.01 <LearningRate> 0.0015 "])
        comps.append((name, "<NaturalGradientAffineComponent> %s<LinearParams> %s<BiasParams> %s<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 <NumSamplesHistory> 2000 <Alpha> 4 </NaturalGradientAffineComponent>" % (pre, w, b)))
        return ("lin", W, B)

    for d in range(depth):
        name = style % (d, "affine")
        inp = prev
        if r.random() < 0.75:
            idx = sorted(set(r.randint(-4, 4) for _ in range(r.randint(1, 4)))) if r.random() < 0.8 else [r.choice([-3, -1, 0, 2, 3]) for _ in range(r.randint(1, 3))]
            if r.random() < 0.1:
                r.shuffle(idx)
            sep = r.choice([", ", ",", " , "])
            if len(idx) == 1 and r.random() < 0.0:
                pass
            parts = []
            for i in idx:
                if i == 0 and r.random() < 0.8:
                    parts.append(prev)
                else:
                    parts.append("Offset(%s,%s%d)" % (prev, r.choice([" ", ""]), i))
            inp = "Append(%s)" % sep.join(parts)
            ref.append(("splice", idx))
            l, q = -min(min(idx), 0), max(max(idx), 0)
            ref.append(("narrow", l, q))
            L, R = L + l, R + q
            dim *= len(idx)
        node(name, inp)
        o = r.randint(1, 8)
        ref.append(affine(name, dim, o))
        dim, prev = o, name
        names.append(name)
        if r.random() < 0.8:
            name = style % (d, "relu")
            node(name, prev)
            comps.append((name, "<RectifiedLinearComponent> <Dim> %d <ValueAvg> %s<DerivAvg> %s<Count> 1000 <OderivRms> [ ]\n<OderivCount> 0 </RectifiedLinearComponent>" % (dim, vec(dim)[0], vec(dim)[0])))
            ref.append(("relu",))
            prev = name
        if r.random() < 0.8:
            name = style % (d, "batchnorm")
            node(name, prev)
            m, M = vec(dim)
            v, V = vec(dim, True)
            eps, rms = r.choice(["0.001", "0.0001", "1e-05", "1e-3", "0.1", "2"]), r.choice(["1", "0.5", "1.0", "0.025", "3", "2.5e-1"])
            comps.append((name, "<BatchNormComponent> <Dim> %d <BlockDim> %d <Epsilon> %s <TargetRms> %s <TestMode> %s <Count> 5.24e+08 <StatsMean> %s<StatsVar> %s</BatchNormComponent>" % (dim, dim, eps, rms, r.choice("FT"), m, v)))
            sc = (V + float(eps)) ** -0.5 * float(rms)
            ref.append(("bn", sc, -M * sc))
            prev = name
    if r.random() < 0.8:
        name = "output.log-softmax"
        node(name, prev)
        comps.append((name, "<LogSoftmaxComponent> <Dim> %d <ValueAvg>  [ ]\n<DerivAvg>  [ ]\n<Count> 0 </LogSoftmaxComponent>" % dim))
        ref.append(("lsm",))
        prev = name
    desc.append("output-node name=output input=%s objective=linear" % prev)
    prior, P = vec(dim, True)
    order = list(comps)
    if r.random() < 0.5:
        r.shuffle(order)
    text = ""
    if r.random() < 0.7:
        text += "<TransitionModel> \n<Topology> \n<TopologyEntry> \n<ForPhones> \n1 2 3 \n</ForPhones> \n<State> 0 <PdfClass> 0 <Transition> 0 0.5 </State> \n</TopologyEntry> \n</Topology> \n<Tuples> 1 \n1 0 0 \n</Tuples> \n</TransitionModel> \n"
    text += "<Nnet3> \n\n" + "\n".join(desc) + "\n\n<NumComponents> %d \n" % len(order)
    text += "".join("<ComponentName> %s %s %s" % (n, t, nl) for n, t in order)
    text += "</Nnet3> <LeftContext> %d <RightContext> %d <Priors> %s" % (L, R, prior)
    src = write("am.txt", text)
    out = os.path.join(TMP, "am")
    msg = tool("convert_am.py", [src, out])
    if "left_context = %d, right_context = %d" % (L, R) not in msg:
        raise Bad("am-context", "contexts %d and %d, the tool reports %r" % (L, R, [l for l in msg.split("\n") if "left_context" in l]))
    # the file, byte by byte
    want = b"NN02" + struct.pack("<iii", L, R, len(ref))
    loose = []
    b = open(out + ".nnet", "rb").read()

    def v32(x):
        return b"VEC0" + struct.pack("<ii", 4 * len(x) + 4, len(x)) + struct.pack("<%df" % len(x), *x)
    for y in ref:
        t = {"lin": 0, "relu": 1, "splice": 6, "bn": 7, "lsm": 8, "narrow": 9}[y[0]]
        want += b"LAY0" + struct.pack("<i", t)
        if t == 0:
            W = y[1].T
            want += b"MAT0" + struct.pack("<iii", 8, W.shape[0], W.shape[1]) + b"".join(v32(list(x)) for x in W) + v32(list(y[2]))
        elif t == 6:
            want += struct.pack("<i", len(y[1])) + struct.pack("<%di" % len(y[1]), *y[1])
        elif t == 9:
            want += struct.pack("<ii", y[1], y[2])
        elif t == 7:
            for x in y[1:]:
                loose.append((len(want) + 12, len(x)))
                want += v32(list(x))
    g, w2 = bytearray(b), bytearray(want)
    if len(g) != len(w2):
        raise Bad("am-bytes", "network file of %d bytes, %d expected" % (len(g), len(w2)))
    for at, n in loose:
        for i in range(at, at + 4 * n, 4):
            p, q = struct.unpack_from("<f", g, i)[0], struct.unpack_from("<f", w2, i)[0]
            if not abs(p - q) <= 2e-6 * abs(q):
                raise Bad("am-batchnorm", "batch-norm value %r, expected %r" % (p, q))
            g[i:i + 4] = w2[i:i + 4]
    if g != w2:
        k = [i for i in range(len(g)) if g[i] != w2[i]][0]
        raise Bad("am-bytes", "network file differs at byte %d of %d (layers %s)" % (k, len(g), [y[0] for y in ref]))
    count("layers", len(ref))
    vec_check("prior", reader("f", out + ".prior"), list(P))
    # what the library makes of it
    T = r.randint(1, 14)
    X = np.array([[f32(r.gauss(0, 1)) for _ in range(ind)] for _ in range(T)])
    tid = [0] + [r.randint(0, dim - 1) for _ in range(r.randint(1, 20))]
    # the unit map goes through its own tool
    body = ["%d %d" % (i, tid[i]) for i in range(1, len(tid))]
    if r.random() < 0.3:
        r.shuffle(body)
    tsrc = write("t2p.txt", "%d\n%d\n" % (dim, len(tid) - 1) + "".join(l + "\n" for l in body))
    msg = tool("convert_trans.py", [tsrc, os.path.join(TMP, "t2p.bin")])
    if "num_pdfs = %d" % dim not in msg:
        raise Bad("trans-pdfs", "%d units, the tool reports %r" % (dim, msg))
    conf = write("am.conf", "nnet=am.nnet\nprior=am.prior\nleft_context=%d\nright_context=%d\nchunk_size=%d\nnum_pdfs=%d\ntid2pdf=t2p.bin\n" % (L, R, r.randint(1, 9), dim))
    o = reader("am", conf, T, ind, input=" ".join("%.9g" % v for v in X.flatten()).encode())
    _, np_, nt = o[0].split()
    got = [int(x) for x in o[1:1 + int(nt)]]
    if got != tid or int(np_) != dim:
        raise Bad("trans-map", "unit map %s read as %s" % (tid, got))
    rows = [[float.fromhex(v) for v in l.split()[1:]] for l in o[1 + int(nt):] if l.startswith("row")]
    x = np.concatenate([np.repeat(X[:1], L, 0), X, np.repeat(X[-1:], R, 0)])
    for y in ref:
        n = x.shape[0]
        if y[0] == "splice":
            x = np.concatenate([x[np.clip(np.arange(n) + i, 0, n - 1)] for i in y[1]], 1)
        elif y[0] == "narrow":
            x = x[y[1]:n - y[2]]
        elif y[0] == "lin":
            x = x @ y[1].T + y[2]
        elif y[0] == "relu":
            x = np.maximum(x, 0)
        elif y[0] == "bn":
            x = x * y[1] + y[2]
        else:
            m = x.max(1, keepdims=True)
            x = x - m - np.log(np.exp(x - m).sum(1, keepdims=True))
    x = x - np.log(P)
    if len(rows) != T:
        raise Bad("am-rows", "%d rows for %d frames (contexts %d and %d)" % (len(rows), T, L, R))
    for t in range(T):
        e = np.abs(np.array(rows[t]) - x[t])
        lim = 2e-4 * max(1, np.abs(x).max(), max(np.abs(y[2]).max() if y[0] == "bn" else 1 for y in ref))
        if len(rows[t]) != dim or not (e <= lim).all():
            raise Bad("am-scores", "row %d is %s, expected %s (layers %s)" % (t, rows[t][:6], list(x[t][:6]), [y[0] for y in ref]))
    count("rows", T)
    return "network %s contexts %d+%d, %d bytes, %d rows as computed from the text" % ("/".join(y[0] for y in ref), L, R, len(b), T), len(b)


# ---------------------------------------------------------------- unit maps
def c_trans(r):
    n, p = r.choice([1, 2, r.randint(1, 40), r.randint(1, 3000)]), r.randint(1, 500)
    m = [r.randint(0, p - 1) for _ in range(n)]
    body = ["%d %d" % (i + 1, m[i]) for i in range(n)]
    if r.random() < 0.3:
        r.shuffle(body)
    src = write("t.txt", "%d\n%d\n%s%s" % (p, n, "\n".join(body), "\n" if r.random() < 0.8 else ""))
    out = os.path.join(TMP, "t.bin")
    msg = tool("convert_trans.py", [src, out])
    if "num_pdfs = %d" % p not in msg:
        raise Bad("trans-pdfs", "%d units, the tool reports %r" % (p, msg))
    o = reader("i", out)
    got = [int(x) for x in o[1:] if x]
    if int(o[0].split()[1]) != n + 1 or got != [0] + m:
        raise Bad("trans-map", "map of %d entries read back as %d entries %s ..." % (n, len(got) - 1, got[:8]))
    if os.path.getsize(out) != 12 + 4 * (n + 1):
        raise Bad("trans-size", "%d bytes" % os.path.getsize(out))
    count("values", n)
    return "unit map of %d ids" % n, n * 1000 + p


def c_cmvn(r):
    v = [r.choice(["%.6g", "%.7g", "%.5e", "%d", "%.3f"]) % (r.gauss(0, 1) * 10 ** r.randint(0, 9)) for _ in range(82)]
    if r.random() < 0.3:
        v = ["+" + x if not x.startswith("-") and r.random() < 0.1 else x for x in v]
    src = write("cmvn.txt", r.choice([" [\n  %s \n  %s ]\n", "[\n%s\n%s ]\n", " [ %s\n %s ]"]) % (" ".join(v[:41]), " ".join(v[41:])))
    out = os.path.join(TMP, "cmvn.bin")
    tool("convert_cmvn_stats.py", [src, out])
    vec_check("cmvn", reader("f", out), [float(x) for x in v[:41]])
    if os.path.getsize(out) != 12 + 4 * 41:
        raise Bad("cmvn-size", "%d bytes" % os.path.getsize(out))
    return "statistics %s ..." % v[:3], hash(tuple(v))


# ---------------------------------------------------------------- unigrams
def c_unigram(r):
    n = r.choice([1, 3, r.randint(1, 200)])
    words = []
    for i in range(n):
        w = r.choice(["wort", "a", "\u4e2d\u6587", "\u00e9t\u00e9", "it's", "-", "3", "2-grams:", "x=y", "<unk2>", "#0"]) + (str(i) if r.random() < 0.97 else str(i) + "\\")
        words.append(w)
    words = list(dict.fromkeys(words))
    ids = list(range(1, len(words) + 3 + r.randint(0, 5)))
    r.shuffle(ids)
    vocab = {"<eps>": 0}
    for w in words + ["<s>", "</s>"]:
        vocab[w] = ids.pop()
    if r.random() < 0.2:
        vocab["never"] = max(vocab.values()) + r.randint(1, 3)
    lst = list(vocab.items())
    if r.random() < 0.5:
        r.shuffle(lst)
    vsrc = write("vocab.txt", "".join("%s %d\n" % x for x in lst))
    un = r.random() < 0.5
    if un and r.random() < 0.5:
        vocab_unk = True
    costs = {w: "%.*f" % (r.choice([2, 6]), -r.expovariate(0.4)) for w in words}
    if r.random() < 0.4:
        # unusual but valid log probabilities
        for w in words:
            if r.random() < 0.2:
                costs[w] = r.choice(["-99", "-99.5", "-150.25", "-98.9999", "-1e-05", "-8.7912e-05", "0", "-0", "-2", "-37.123456", "-12.5e0"])
    costs["</s>"] = "%.4f" % -r.expovariate(0.4)
    items = list(costs.items()) + [("<s>", r.choice(["-99", "0", "-99.0000"]))] + ([("<unk>", "-3.2")] if un else [])
    if r.random() < 0.5:
        r.shuffle(items)
    order = r.choice([1, 1, 2, 3])
    head = ("\n" if r.random() < 0.5 else "") + "\\data\\\n" + "ngram 1=%d\n" % len(items)
    if order >= 2:
        head += "ngram 2=3\n"
    if order >= 3:
        head += "ngram  3=1\n"
    sep = r.choice(["\t", " "])
    uni = "\n\\1-grams:\n" + "".join(sep.join([c, w] + (["%.4f" % r.gauss(0, 1)] if order > 1 and r.random() < 0.7 else [])) + "\n" for w, c in items)
    rest = ""
    w0 = r.choice(words)
    if order >= 2:
        rest += "\n\\2-grams:\n" + "".join("-0.%d%s%s %s%s-0.1\n" % (i, sep, w0, r.choice(words), sep) for i in range(3))
    if order >= 3:
        rest += "\n\\3-grams:\n" + "-0.5%s%s %s %s\n" % (sep, w0, w0, w0)
    tail = "\n\\end\\\n" if r.random() < 0.9 else "\n\\end\\"
    arpa = head + uni + rest + tail
    if r.random() < 0.5:
        # through the pruning tool: only the unigrams remain
        pr = tool("prune_lm.py", [], stdin=("iARPA\n" if r.random() < 0.3 else "") + arpa)
        L = [l.strip() for l in pr.split("\n")]
        got = [tuple(l.split()) for l in L if l and not l.startswith("\\") and not l.startswith("ngram ")]
        if any(len(x) not in (2, 3) for x in got) or sorted((float(x[0]), x[1]) for x in got) != sorted((float(c), w) for w, c in items):
            raise Bad("prune", "the pruned model has other unigrams: %s" % (set(x[:2] for x in got) ^ set((c, w) for w, c in items)))
        if [l for l in L if l.startswith("ngram")] != ["ngram 1=%d" % len(items)] or [l for l in L if l.startswith("\\") and l in ("\\data\\", "\\1-grams:", "\\2-grams:", "\\end\\")] != ["\\data\\", "\\1-grams:", "\\end\\"]:
            raise Bad("prune-form", "the pruned model is %r" % pr[:400])
        arpa = pr
        count("pruned")
    src = write("lm.arpa", arpa)
    out = os.path.join(TMP, "uni.bin")
    tool("convert_unigram.py", [src, vsrc, out])
    want = [float("inf")] * (max(vocab.values()) + 1)
    for w, c in costs.items():
        want[vocab[w]] = -float(c) * math.log(10)
    want[vocab["<s>"]] = 0.0
    vec_check("unigram", reader("f", out), want, exact=False)
    return "%d unigrams%s" % (len(words), ", pruned from order %d" % order if arpa is not None else ""), len(words) * 1000 + order


# ---------------------------------------------------------------- graphs
def c_fst(r):
    n = r.choice([1, 2, r.randint(1, 30), r.randint(1, 30), r.randint(1, 400)])
    f = []
    for s in range(n):
        fin = float("inf") if r.random() < 0.6 else f32(r.choice([0.0, 0.0, r.gauss(0, 5)]))
        arcs = []
        if r.random() < 0.85:
            labels = r.sample(range(0, 300), r.randint(0, min(12, 300)))
            for il in labels:
                arcs.append((r.randint(0, n - 1), il, il if r.random() < 0.7 else r.randint(0, 300), f32(r.choice([0.0, r.gauss(0, 9), r.expovariate(1)]))))
        f.append((fin, arcs))
    start = r.randint(0, n - 1)
    src = write("g.txt", "start %d\n" % start + "".join("s %s\n" % ("inf" if x[0] == float("inf") else x[0].hex()) + "".join("a %d %d %d %s\n" % (a[0], a[1], a[2], a[3].hex()) for a in x[1]) for x in f))
    out = os.path.join(TMP, "g.bin")
    tool("convert_fstfmt.py", [src, out] + (["binary"] if r.random() < 0.3 else []))
    o = reader("lm", out, n)
    if int(o[0].split()[1]) != start:
        raise Bad("fst-start", "start state %s instead of %d" % (o[0], start))
    st = -1
    got = []
    for l in o[1:]:
        p = l.split()
        if not p:
            continue
        if p[0] == "state":
            got.append((float.fromhex(p[1]), []))
        elif p[0] == "arc":
            got[-1][1].append((int(p[1]), int(p[2]), int(p[3]), float.fromhex(p[4])))
        else:
            raise Bad("fst-lookup", l)
    for s in range(n):
        if got[s][0] != f[s][0]:
            raise Bad("fst-final", "final cost of state %d is %r, was %r" % (s, got[s][0], f[s][0]))
        want = sorted(f[s][1], key=lambda a: a[1])
        if got[s][1] != want:
            raise Bad("fst-arcs", "arcs of state %d are %s, expected %s" % (s, got[s][1][:6], want[:6]))
        count("arcs", len(want))
    na = sum(len(x[1]) for x in f)
    if os.path.getsize(out) != 48 + 8 * n + 16 * na:
        raise Bad("fst-size", "%d bytes for %d states and %d arcs" % (os.path.getsize(out), n, na))
    return "graph of %d states and %d arcs, start %d" % (n, na, start), n * 100000 + na


KINDS = [c_am, c_trans, c_am, c_cmvn, c_unigram, c_fst, c_fst]


def main():
    global samples_left
    for i in range(int(A["from"]), int(A["to"]), int(A["step"])):
        OUT.write("B %d\n" % i)
        OUT.flush()
        seed = int(hashlib.sha256(("%s/%s/%d" % (A["seed"], A["flavor"], i)).encode()).hexdigest()[:15], 16)
        k = KINDS[(i // int(A["step"])) % len(KINDS)]
        r = random.Random(seed)
        try:
            what, sig = k(r)
            count(k.__name__[2:] + "_models")
            OUT.write("E %d %016x 1\n" % (i, hash((k.__name__, sig)) & (2 ** 64 - 1)))
            if samples_left > 0:
                samples_left -= 1
                OUT.write("S %d %s\n" % (i, clean(what)))
        except Bad as e:
            OUT.write("V %d %s %s\n" % (i, e.key, clean(e.msg)))
            OUT.write("E %d 0 0\n" % i)
        OUT.flush()
    for k, v in counters.items():
        OUT.write("C %s %d\n" % (k, v))
    OUT.write("D\n")


try:
    main()
except BaseException:
    traceback.print_exc()
    OUT.flush()
    os._exit(98)
