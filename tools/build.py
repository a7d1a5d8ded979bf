#!/usr/bin/env python3
"""Content-addressed build of the simulators from /repo's working tree.

build(target) -> path of the executable. Objects live in /verif/build/obj, named by a hash of
the compiler command, the source file and every header it could see, so a stale object is never
used, whatever the time stamps say."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
SYS_INC = ["-isystem", "/usr/include/mfem", "-isystem", "/usr/include/hypre", "-isystem", "/usr/include/hdf5/serial"] + MPI_INC
STD = ["-std=c++14"]
CORE = ("etc hdf5_utils block_smoother rom_element_collection topology_handler component_topology_handler interfaceinteg "
        "dg_bilinear dg_mixed_bilin dg_linear nonlinear_integ hyperreduction_integ interface_form input_parser parameter "
        "parameterized_problem linalg_utils").split()
# sources of the pinned commit that need libROM or a solver stack; anything else that appears in src is new and taken
LIBROM = ("advdiff_solver linelast_solver main_workflow multiblock_solver navier_solver poisson_solver random_sample_generator rom_handler "
          "rom_interfaceform rom_nonlinearform sample_generator steady_ns_solver stokes_solver unsteady_ns_solver").split()
# this MFEM has no MUMPS: the solvers see a stand-in
MUMPS = ["-include", VERIF + "/sim/stub/mumps_stub.hpp"]
TARGETS = {
    "core": {"src": CORE, "sim": ["simrt", "shim_io", "shim_mpi"], "sc": "sc_*.cpp", "defs": []},
    "full": {"src": None, "sim": ["simrt", "shim_io", "shim_mpi"], "sc": "full_*.cpp sc_asm.cpp", "defs": []},
}
LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmfem", "-lHYPRE", "-lmetis", "-lyaml-cpp",
        "/usr/lib/x86_64-linux-gnu/libhdf5_serial.so", "-llapack", "-lblas", "-lmpi_cxx", "-lmpi", "-ldl", "-lpthread"]


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def compile_one(job):
    cmd, src, obj, rename = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "compiling %s failed:\n%s" % (src, p.stdout[-6000:])
    if rename:
        subprocess.run(["/usr/bin/objcopy", "--redefine-sym", rename, tmp], check=True)
    os.replace(tmp, obj)
    return None


def build(target, verbose=False):
    t = TARGETS[target]
    os.makedirs(OBJ, exist_ok=True)
    repo_hdr = sorted(glob.glob(REPO + "/include/**/*.h*", recursive=True) + glob.glob(REPO + "/src/**/*.h*", recursive=True))
    sim_hdr = sorted(glob.glob(VERIF + "/sim/*.hpp"))
    stub_hdr = sorted(glob.glob(VERIF + "/sim/stub/**/*.h*", recursive=True))
    # code under test: asserts on, uninitialised locals made deterministic
    rflags = STD + ["-O1", "-g", "-w", "-ftrivial-auto-var-init=pattern", "-I" + REPO + "/include", "-I" + VERIF + "/sim/stub"] + SYS_INC + \
        ["-include", VERIF + "/sim/simrand.hpp"] + t["defs"]
    sflags = STD + ["-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-I" + VERIF + "/sim"] + MPI_INC
    cflags = STD + ["-O1", "-g", "-w", "-ftrivial-auto-var-init=pattern", "-I" + VERIF + "/sim", "-I" + REPO + "/include", "-I" + VERIF + "/sim/stub"] + SYS_INC + \
        ["-include", VERIF + "/sim/simrand.hpp"] + t["defs"]
    jobs, objs = [], []

    def add(src, flags, hdrs, rename=""):
        cmd = ["/usr/bin/g++"] + flags
        k = digest([src] + hdrs, " ".join(cmd) + rename)
        o = os.path.join(OBJ, os.path.basename(src) + "." + k + ".o")
        jobs.append((cmd, src, o, rename))
        objs.append(o)

    have = sorted(os.path.splitext(os.path.basename(f))[0] for f in glob.glob(REPO + "/src/*.cpp"))
    names = [n for n in have if not t["src"] or n not in LIBROM]
    for n in names:
        add(os.path.join(REPO, "src", n + ".cpp"), rflags + (MUMPS if n in LIBROM else []), repo_hdr + stub_hdr + [VERIF + "/sim/simrand.hpp"])
    if not t["src"]:   # the program's own main function, under another name
        add(os.path.join(REPO, "bin", "main.cpp"), rflags + MUMPS, repo_hdr + stub_hdr + [VERIF + "/sim/simrand.hpp"], "main=scaleup_main")
    for n in t["sim"]:
        add(os.path.join(VERIF, "sim", n + ".cpp"), sflags, sim_hdr)
    for f in sorted(sum((glob.glob(os.path.join(VERIF, "sim", g)) for g in t["sc"].split()), [])):
        add(f, cflags + (MUMPS if os.path.basename(f).startswith("full_") else []), repo_hdr + sim_hdr + stub_hdr)
    todo = [j for j in jobs if not os.path.exists(j[2])]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for err in ex.map(compile_one, todo):
            if err:
                raise RuntimeError(err)
    key = hashlib.sha256("\n".join(objs + LIBS).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s.%s" % (target, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["/usr/bin/g++", "-rdynamic", "-o", tmp] + objs + LIBS
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("linking failed:\n" + p.stdout[-6000:])
        os.replace(tmp, exe)
    # bound the cache
    keep = set(objs) | {exe}
    old = sorted((p for p in glob.glob(OBJ + "/*.o") + glob.glob(BUILD + "/*.*") if os.path.isfile(p) and p not in keep), key=os.path.getmtime)
    total = sum(os.path.getsize(p) for p in old)
    while old and total > 1500e6:
        p = old.pop(0)
        try:
            total -= os.path.getsize(p)
            os.remove(p)
        except OSError:
            pass
    return exe


if __name__ == "__main__":
    for t in sys.argv[1:] or ["core"]:
        print(build(t))
