"""Helpers of a demonstration: builds programs from the sources in the current directory, in a scratch directory."""
import atexit, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
FLAGS = ["-std=c++20", "-w", "-O0", "-I" + HERE, "-I" + os.path.join(REPO, "include")]
ALL = ["src/config_parser.cpp", "src/models/DeGroot.cpp", "src/models/ActivityDrivenModel.cpp", "src/models/DeffuantModel.cpp",
       "src/models/DeffuantModelVector.cpp", "src/models/InertialModel.cpp", "src/util/tomlplusplus.cpp"]
count = [0]


def broken(text):
    print("the demonstration could not run:", text)
    sys.stdout.flush()
    sys.exit(3)


def build(source=None, library=True, flags=()):
    """program from C++ text (or the command line program), linked with the library"""
    count[0] += 1
    d = os.path.join(TMP, "b%d" % count[0])
    os.makedirs(d)
    srcs = [os.path.join(REPO, s) for s in (ALL if library else [])]
    if source is None:
        srcs.append(os.path.join(REPO, "src/main.cpp"))
    else:
        open(os.path.join(d, "p.cpp"), "w").write(source)
        srcs.append(os.path.join(d, "p.cpp"))

    def cc(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        r = subprocess.run(["g++", *FLAGS, *flags, "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            broken(r.stdout[-3000:])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    exe = os.path.join(d, "prog")
    r = subprocess.run(["g++", *flags, *objs, "-o", exe, "-lfmt", "-ltomlplusplus", "-lpthread"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        broken(r.stdout[-3000:])
    return exe


def sim(exe, config, net=None, agents=None, timeout=100):
    """run the command line program; (exit status, {file name: content})"""
    count[0] += 1
    d = os.path.join(TMP, "r%d" % count[0])
    os.makedirs(d)
    open(os.path.join(d, "c.toml"), "w").write(config)
    args = [exe, "c.toml", "-o", "out"]
    if net is not None:
        open(os.path.join(d, "n.txt"), "w").write(net)
        args += ["-n", "n.txt"]
    if agents is not None:
        open(os.path.join(d, "a.txt"), "w").write(agents)
        args += ["-a", "a.txt"]
    r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out = {}
    if os.path.isdir(os.path.join(d, "out")):
        for f in os.listdir(os.path.join(d, "out")):
            out[f] = open(os.path.join(d, "out", f)).read()
    return r.returncode, out


def rows(text):
    """agents of an opinion file without the index"""
    return [[float(x) for x in l.split(",")[1:]] for l in text.split("\n") if l and l[0] != "#"]


def net(text):
    """[(neighbours, weights)] of a network file"""
    res = []
    for l in text.split("\n"):
        if l and l[0] != "#":
            c = l.split(",")
            n = int(c[1])
            res.append(([int(x) for x in c[2:2 + n]], [float(x) for x in c[2 + n:2 + 2 * n]]))
    return res


def expect(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.stdout.flush()
        sys.exit(1)


def prog(exe, *args, timeout=200):
    """run a program in a scratch directory"""
    count[0] += 1
    d = os.path.join(TMP, "r%d" % count[0])
    os.makedirs(d)
    return subprocess.run([exe, *args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def run_prog(source, library=False, flags=()):
    """the program decides itself: exit status 0 if all is well"""
    r = prog(build(source, library, flags))
    expect(r.returncode == 0, r.stdout[-1500:])
    print("ok")
