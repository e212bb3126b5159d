"""Builds the simulators from /repo's working tree into /verif/.build (git-ignored)."""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NB_REPO", "/repo")
BUILD = os.environ.get("NB_BUILD", os.path.join(VERIF, ".build"))
QT = "/usr/include/x86_64-linux-gnu/qt5"

COMMON = ("-std=gnu++17 -g1 -fPIC -pthread -DQT_DISABLE_DEPRECATED_BEFORE=0 -DHAVE_OPENMP -DHAVE_OPENCL -DHAVE_OPENCL2 "
          "-DNBODY_EXPORT_DLL -DQT_NO_DEBUG -DQT_GUI_LIB -DQT_CORE_LIB -D_REENTRANT "
          "-DCL_TARGET_OPENCL_VERSION=300 "
          f"-I{REPO}/nbody -I{REPO}/player -isystem {QT} -isystem {QT}/QtCore -isystem {QT}/QtGui "
          f"-isystem {QT}/QtWidgets -isystem {QT}/QtOpenGL -isystem {QT}/QtConcurrent")
# the code under test: the language level, target and definitions of the shipped build
LIB = COMMON.replace("-std=gnu++17", "-std=gnu++11") + " -fopenmp -march=x86-64-v2 -w"
FLAGS = {
    "lib": LIB + " -O2",
    "libtsan": LIB + " -O1 -fsanitize=thread",
    "libcuda": LIB + f" -O2 -DHAVE_CUDA -I{VERIF}/sim/cuda",
    "main": LIB + " -O1 -Dmain=nbody_main",
    "libasan": LIB + " -O1 -fno-omit-frame-pointer -fsanitize=address,bounds,object-size,integer-divide-by-zero,return,unreachable -fno-sanitize-recover=all",
    "mainasan": LIB + " -O1 -Dmain=nbody_main -fno-omit-frame-pointer -fsanitize=address,bounds,object-size,integer-divide-by-zero,return,unreachable -fno-sanitize-recover=all",
    "player": LIB + f" -O1 -DQT_WIDGETS_LIB -DQT_OPENGL_LIB -DQT_CONCURRENT_LIB -include {VERIF}/sim/simview.h",
    "simplayer": COMMON + " -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0" + f" -I{VERIF}/sim" + " -O2 -march=x86-64-v2 -Wall -Wextra -Wno-unused-parameter -DQT_WIDGETS_LIB -DQT_CONCURRENT_LIB",
    "sim": COMMON + " -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0" + f" -I{VERIF}/sim" + " -O2 -march=x86-64-v2 -Wall -Wextra -Wno-unused-parameter",
}
QTLIBS = "-lQt5Core -lQt5Gui"
CL = " -lOpenCL"


def sources():
    nb = sorted(f for f in glob.glob(f"{REPO}/nbody/*.cpp") if "cuda" not in os.path.basename(f))
    ocl = [f for f in nb if "opencl" in os.path.basename(f)]
    return nb, ocl


class Ninja:
    def __init__(self):
        self.lines = []
        self.objs = {}

    def rule(self, name, cmd, dep=False, desc=""):
        self.lines.append(f"rule {name}\n  command = {cmd}")
        if dep:
            self.lines.append("  depfile = $out.d\n  deps = gcc")
        self.lines.append(f"  description = {desc or name} $out\n")

    def obj(self, kind, src, implicit=""):
        key = (kind, src)
        if key in self.objs:
            return self.objs[key]
        out = f"obj/{kind}/" + src.strip("/").replace("/", "_") + ".o"
        imp = f" | {implicit}" if implicit else ""
        self.lines.append(f"build {out}: cc_{kind} {src}{imp}\n")
        self.objs[key] = out
        return out

    def link(self, out, objs, libs, order=""):
        self.lines.append(f"build {out}: link {' '.join(objs)}{' || ' + order if order else ''}\n  libs = {libs}\n")


def generate():
    n = Ninja()
    for k, f in FLAGS.items():
        # the code under test allocates through the simulator, nothing else does
        post = " && objcopy " + " ".join(f"--redefine-sym {x}=nbsim_{x}" for x in ("malloc", "calloc", "realloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "posix_memalign", "aligned_alloc")) + " $out" if k.endswith("asan") else ""
        if k == "libcuda":
            post = " && objcopy --redefine-sym exit=nbsim_exit $out"
        n.rule("cc_" + k, f"g++ {f} -MD -MF $out.d -c $in -o $out{post}", True, "CXX")
    n.rule("link", "g++ -rdynamic -o $out $in $libs -ldl -lpthread", desc="LINK")
    n.rule("moc", f"/usr/lib/qt5/bin/moc {LIB.replace('-isystem', '-I').replace('-I ', '-I')} $in -o $out".replace("-fopenmp", "").replace("-fPIC -pthread", "").replace("-march=x86-64-v2", "").replace("-w", "").replace("-std=gnu++11 -g1", ""), desc="MOC")
    n.rule("rcc", "/usr/lib/qt5/bin/rcc -name opencl $in -o $out", desc="RCC")
    nb, ocl = sources()
    S = f"{VERIF}/sim/"
    qrc = f"{REPO}/nbody/opencl.qrc"
    n.lines.append(f"build gen/qrc_opencl.cpp: rcc {qrc} | {REPO}/nbody/nbody_engine_opencl.cl {REPO}/nbody/nbody_space_heap_func_priv.h\n")
    lib = [n.obj("lib", f) for f in nb]
    libts = [n.obj("libtsan", f) for f in nb]
    sim = lambda *names: [n.obj("sim", S + x) for x in names]
    qrco = n.obj("sim", "gen/qrc_opencl.cpp")
    mainm = n.obj("main", f"{REPO}/test/main/main.cpp")
    targets = {}

    def target(name, objs, libs, order=""):
        if all(o for o in objs):
            n.link(name, objs, libs, order)
            targets[name] = True

    if os.path.exists(S + "prop_store.cpp"):
        target("nbsim_store", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp", "prog.cpp", "prop_store.cpp") + lib + [mainm, qrco], QTLIBS + CL)
        libas = [n.obj("libasan", f) for f in nb]
        mainas = n.obj("mainasan", f"{REPO}/test/main/main.cpp")
        target("nbsim_asan", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp", "prog.cpp", "prop_store.cpp", "asanopt.cpp", "alloc.cpp") + libas + [mainas, qrco],
               QTLIBS + CL + " -fsanitize=address,undefined")
    if os.path.exists(S + "prop_omp.cpp"):
        target("nbsim_omp", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp", "prog.cpp", "prop_omp.cpp") + libts + [mainm, qrco], QTLIBS + CL)
    if os.path.exists(S + "prop_cl.cpp"):
        n.rule("clbuiltin", "clang-18 -x cl -cl-std=CL3.0 -cl-no-stdinc -O2 -fPIC -march=x86-64-v2 -w -c $in -o $out", desc="CLC")
        n.lines.append(f"build clbuiltin.o: clbuiltin {S}clbuiltin.cl\n")
        target("nbsim_cl", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp", "prog.cpp", "simcl.cpp", "prop_cl.cpp") + lib + [mainm, qrco], QTLIBS, "clbuiltin.o")
    if os.path.exists(S + "prop_cuda.cpp"):
        # the CUDA engines against the simulated runtime's headers; exit() ends the simulated process only
        n.rule("cu2cpp", f"python3 {VERIF}/tools/cu2cpp.py $in $out", desc="CU")
        cu = sorted(glob.glob(f"{REPO}/nbody/*cuda*.cpp"))
        for f in sorted(glob.glob(f"{REPO}/nbody/*.cu")):
            out = "gen/" + os.path.basename(f) + ".cpp"
            n.lines.append(f"build {out}: cu2cpp {f} | {VERIF}/tools/cu2cpp.py\n")
            cu.append(out)
        libcu = [n.obj("libcuda", f) for f in cu + [f"{REPO}/nbody/nbody_engines.cpp"]]
        rest = [o for f, o in zip(nb, lib) if os.path.basename(f) != "nbody_engines.cpp"]
        target("nbsim_cuda", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp", "simcuda.cpp", "prop_cuda.cpp") + libcu + rest + [mainm, qrco], QTLIBS + CL)
    if os.path.exists(S + "prop_player.cpp"):
        pl = []
        for f in sorted(glob.glob(f"{REPO}/player/*.cpp")):
            if os.path.basename(f) not in ("main.cpp", "wgt_nbody_view.cpp", "nbody_frame_compressor_opencv.cpp"):
                pl.append(n.obj("player", f, f"{S}simview.h"))
        for h in sorted(glob.glob(f"{REPO}/player/*.h")) + [f"{S}simview.h"]:
            if os.path.basename(h) != "wgt_nbody_view.h" and "Q_OBJECT" in open(h).read():
                out = "gen/moc_" + os.path.basename(h)[:-2] + ".cpp"
                n.lines.append(f"build {out}: moc {h}\n")
                pl.append(n.obj("player", out))
        simp = [n.obj("simplayer", S + x) for x in ("simqt.cpp", "prop_player.cpp")]
        target("nbsim_player", sim("core.cpp", "disk.cpp", "simomp.cpp", "world.cpp") + simp + lib + pl + [mainm, qrco],
               "-lQt5Concurrent -lQt5Widgets -lQt5Gui -lQt5Core" + CL)
    os.makedirs(BUILD, exist_ok=True)
    text = "ninja_required_version = 1.3\n" + "\n".join(n.lines)
    path = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return targets


def build(names, quiet=True):
    generate()
    p = subprocess.run(["ninja", "-C", BUILD, "-k", "0", "-j", "8"] + names, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not quiet:
        sys.stdout.write(p.stdout[-6000:])
    return p.returncode == 0


if __name__ == "__main__":
    t = generate()
    ok = build(sys.argv[1:] or sorted(t), quiet=False)
    # without arguments (setup): one simulator that does not build is no reason to refuse the others
    sys.exit(0 if ok or not sys.argv[1:] and any(os.path.exists(os.path.join(BUILD, x)) for x in t) else 2)
