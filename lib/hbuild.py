"""Content-addressed build of /repo's library and of the conformance drivers.

Objects are keyed by the hash of the source, of every header of /repo and of the
flags, so nothing depends on time stamps: a build directory left by an earlier
tree can never hide a change.  Everything is written under /verif/build.
"""
import concurrent.futures as cf, hashlib, os, subprocess, sys, glob, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HPP_REPO", "/repo")
BUILD = os.environ.get("HPP_VERIF_BUILD", os.path.join(VERIF, "build"))
PREFIX = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"
CXX = "/usr/bin/g++"

DEFS = """-DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_CHRONO_DYN_LINK -DBOOST_CHRONO_NO_LIB
-DBOOST_CONTAINER_DYN_LINK -DBOOST_CONTAINER_NO_LIB -DBOOST_DATE_TIME_DYN_LINK -DBOOST_DATE_TIME_NO_LIB
-DBOOST_FILESYSTEM_DYN_LINK -DBOOST_FILESYSTEM_NO_LIB -DBOOST_FUSION_INVOKE_MAX_ARITY=12
-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30
-DBOOST_SERIALIZATION_DYN_LINK -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_DYN_LINK -DBOOST_THREAD_NO_LIB
-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP
-DHPP_CONSTRAINTS_USE_QPOASES -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10
-DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2
-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_URDFDOM_HEADERS_MAJOR_VERSION=3
-DPINOCCHIO_URDFDOM_HEADERS_MINOR_VERSION=0 -DPINOCCHIO_URDFDOM_HEADERS_PATCH_VERSION=0
-DPINOCCHIO_WITH_COLLISION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DTINYXML2_IMPORT
-D_FILE_OFFSET_BITS=64""".split()
OPT = ["-O1"]
FLAGS = ["-w", "-include", "map", "-fPIC", "-fopenmp"]
SYSINC = []
for d in ("include", "include/eigen3", "include/pinocchio/deprecated", "include/urdfdom", "include/urdfdom_headers"):
    SYSINC += ["-isystem", os.path.join(PREFIX, d)]
INC = ["-I" + os.path.join(VERIF, "harness", "gen"), "-I" + os.path.join(REPO, "include")]
LIBNAMES = ["libhpp-pinocchio.so", "libqpOASES.so", "libhpp-util.so", "libpinocchio_parsers.so",
            "libpinocchio_collision.so", "libpinocchio_default.so", "libcoal.so",
            "libboost_filesystem.so", "libboost_serialization.so", "libboost_thread.so",
            "liburdfdom_model.so", "libtinyxml2.so", "liboctomap.so", "liboctomath.so"]


STATIC = {"composition"}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def headers_hash():
    hs = sorted(glob.glob(REPO + "/include/**/*.hh", recursive=True) +
                glob.glob(REPO + "/include/**/*.h", recursive=True) +
                glob.glob(REPO + "/include/**/*.hpp", recursive=True) +
                glob.glob(REPO + "/src/**/*.hh", recursive=True) +
                glob.glob(REPO + "/src/**/*.h", recursive=True) +
                glob.glob(VERIF + "/harness/gen/**/*.hh", recursive=True))
    return _hash(*[x for h in hs for x in (h, _read(h))])


def lib_sources():
    return sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True))


def env():
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = PREFIX + "/lib:" + PREFIX + "/lib64"
    e["ROS_PACKAGE_PATH"] = PREFIX + "/share:" + PREFIX + "/share/example-robot-data/robots"
    e["OMP_NUM_THREADS"] = "4"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    return e


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd[-6:]) + "\n" + r.stdout[-6000:])


def _pch(opt):
    """Precompiled header of the third-party includes (not of /repo)."""
    src = os.path.join(VERIF, "harness", "pch.hh")
    key = _hash("pch", _read(src), " ".join(DEFS + opt + FLAGS))
    d = os.path.join(BUILD, "pch", key)
    gch = os.path.join(d, "pch.hh.gch")
    if not os.path.exists(gch):
        os.makedirs(d, exist_ok=True)
        shutil.copy(src, os.path.join(d, "pch.hh"))
        tmp = gch + ".%d" % os.getpid()
        _run([CXX] + opt + FLAGS + DEFS + SYSINC + ["-x", "c++-header", os.path.join(d, "pch.hh"), "-o", tmp])
        os.rename(tmp, gch)
    return os.path.join(d, "pch.hh")


def compile_objs(srcs, opt, hh, extra_inc=(), extra_key=""):
    pch = _pch(opt)
    objs, jobs = [], []
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    for s in srcs:
        key = _hash("obj", s, _read(s), hh, extra_key, " ".join(DEFS + opt + FLAGS + INC + list(extra_inc)))
        o = os.path.join(BUILD, "obj", os.path.basename(s).replace(".", "_") + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    # biggest first
    jobs.sort(key=lambda so: -os.path.getsize(so[0]))

    def one(so):
        s, o = so
        tmp = o + ".tmp%d" % os.getpid()
        _run([CXX] + opt + FLAGS + DEFS + ["-Dhpp_constraints_EXPORTS"] + ["-include", pch] +
             list(extra_inc) + INC + SYSINC + ["-c", s, "-o", tmp])
        os.rename(tmp, o)
    if jobs:
        with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()
    return objs


def build(drivers, opt=None):
    """Build the library and the named drivers (harness/<name>.cc); return {name: path}."""
    opt = opt or OPT
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = headers_hash()
        dsrc = [os.path.join(VERIF, "harness", d + ".cc") for d in drivers]
        hk = _hash(*[_read(h) for h in sorted(glob.glob(VERIF + "/harness/*.hh"))])
        srcs = lib_sources()
        _pch(opt)
        with cf.ThreadPoolExecutor(2) as ex:
            fl = ex.submit(compile_objs, srcs, opt, hh)
            fd = ex.submit(compile_objs, dsrc, opt, _hash(hh, hk), ["-I" + os.path.join(VERIF, "harness")])
            lobjs, dobjs = fl.result(), fd.result()
        lkey = _hash("lib", *lobjs)
        ldir = os.path.join(BUILD, "lib", lkey)
        lib = os.path.join(ldir, "libhpp-constraints.so")
        libs = [os.path.join(PREFIX, "lib", n) for n in LIBNAMES]
        libs = [x for x in libs if os.path.exists(x)]
        if not os.path.exists(lib):
            os.makedirs(ldir, exist_ok=True)
            tmp = lib + ".tmp%d" % os.getpid()
            _run([CXX, "-shared", "-Wl,-soname,libhpp-constraints.so", "-fopenmp", "-o", tmp] + lobjs +
                 ["-Wl,-rpath," + PREFIX + "/lib"] + libs)
            os.rename(tmp, lib)
        out = {}
        for d, o in zip(drivers, dobjs):
            bkey = _hash("bin", o, lib)
            b = os.path.join(BUILD, "bin", d + "-" + bkey)
            if not os.path.exists(b):
                os.makedirs(os.path.dirname(b), exist_ok=True)
                tmp = b + ".tmp%d" % os.getpid()
                # classes hidden in the library can be used by a driver that contains it
                _run([CXX, "-fopenmp", "-o", tmp, o] + (lobjs if d in STATIC else [lib]) + ["-Wl,-rpath," + ldir, "-Wl,-rpath," + PREFIX + "/lib",
                      "-Wl,--allow-shlib-undefined"] + libs)
                os.rename(tmp, b)
            out[d] = b
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    print(build(sys.argv[1:]))
