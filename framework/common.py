"""Shared machinery of the checks: builds, scratch directories, replay files, evidence."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD_ROOT = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
CORES = max(1, min(8, os.cpu_count() or 1))

SAN = ("-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS "
       "-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern")
FLAVORS = {
    # name: (CC, CXX, flags, OpenMP)
    "san": ("gcc", "g++", SAN + " -Wno-changes-meaning", False),
    "fuzz": ("clang", "clang++", SAN + " -fsanitize=fuzzer-no-link", False),
    "omp": ("gcc", "g++", "-O1 -g -D_GLIBCXX_ASSERTIONS -Wno-changes-meaning", True),
    # Instrumented for another runtime, see harness/c13_schedules.cpp.
    "tsan": ("gcc", "g++", "-O1 -g -fsanitize=thread -Wno-changes-meaning", True),
    # With the detector of data races.
    "race": ("gcc", "g++", "-O1 -g -fsanitize=thread -D_GLIBCXX_ASSERTIONS -Wno-changes-meaning", False),
    # For release, by another compiler.
    "release": ("clang", "clang++", "-O3 -DNDEBUG", False),
    "plain": ("gcc", "g++", "-O1 -g -D_GLIBCXX_ASSERTIONS -Wno-changes-meaning", False),
}
LIBRARIES = ["image", "pgm_io", "indexing", "indexing_checks", "disparity_graph",
             "lowest_penalties", "constraint_graph", "labeling_finder"]
ASAN_OPTIONS = "max_allocation_size_mb=512:hard_rss_limit_mb=4000:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:exitcode=99"


class CheckError(Exception):
    """The check itself could not be carried out."""


class Unsupported(Exception):
    """The code needs something that stand-ins of devices do not have."""


def environment(extra=None):
    env = dict(os.environ)
    for name in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH"):
        env.pop(name, None)
    for name in list(env):
        if name.startswith(("OMP_", "GOMP_", "ASAN_", "UBSAN_", "TSAN_", "MALLOC_")):
            env.pop(name)
    env["ASAN_OPTIONS"] = ASAN_OPTIONS
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:report_bugs=1"
    env["LC_ALL"] = "C.UTF-8"
    env.update(extra or {})
    return env


def run(command, cwd=None, env=None, timeout=None, check=True, what=None):
    """Run a command; a failure is an error of the check."""
    result = subprocess.run(command, cwd=cwd, env=env or environment(), timeout=timeout,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
    if check and result.returncode != 0:
        raise CheckError("%s failed (%d): %s\n%s" % (what or command[0], result.returncode, " ".join(command), result.stdout[-6000:]))
    return result


class Workspace:
    """Build directory of one check, made from scratch by every run."""

    def __init__(self, name):
        self.path = os.path.join(BUILD_ROOT, "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name):
        return os.path.join(self.path, name)

    def libraries(self, flavor, targets=None, flags=""):
        """Build libraries and the program of the repository, return the build directory."""
        cc, cxx, common, openmp = FLAVORS[flavor]
        build = self.file("repo-" + flavor)
        if os.path.exists(build):
            return build
        run(["cmake", "-S", REPO, "-B", build, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_CXX_FLAGS=" + common + " " + flags,
             "-DWITH_OPENMP=" + ("ON" if openmp else "OFF"), "-DWITH_OPENCL=OFF", "-DWITH_CUDA=OFF", "-DBUILD_DOC=OFF"],
            what="configuration of the repository")
        run(["ninja", "-C", build] + (targets or LIBRARIES), what="build of the repository")
        return build

    def compile(self, source, flags, output, compiler="g++", what="build of the harness"):
        path = self.file(output)
        run([compiler, "-std=c++17"] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", source, "-o", path], what=what)
        return path

    def harness(self, source, flavor, output, extra=(), targets=None, objects=(), libraries=()):
        """Compile a harness and link it with libraries of the repository."""
        build = self.libraries(flavor, targets)
        cc, cxx, common, openmp = FLAVORS[flavor]
        archives = [os.path.join(build, "lib", "lib%s.a" % name) for name in LIBRARIES]
        path = self.file(output)
        run([cxx, "-std=c++17"] + common.split() + (["-fopenmp"] if openmp else []) + list(extra)
            + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, os.path.join(HARNESS, source)] + list(objects)
            + ["-Wl,--start-group"] + archives + ["-Wl,--end-group"] + list(libraries) + ["-o", path],
            what="build of the harness")
        return path


def sub_seed(seed, *parts):
    text = ":".join(str(part) for part in (seed,) + parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big") >> 1


def write_replay(identifier, document):
    os.makedirs(REPLAYS, exist_ok=True)
    text = json.dumps(document, indent=1)
    name = "%s-%s.json" % (identifier, hashlib.sha256(text.encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as out:
        out.write(text + "\n")
    return os.path.relpath(path, VERIF)


def known_findings():
    """Entries of the committed file which are suppressed: (property, identity) pairs."""
    result = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as source:
            for line in source:
                if line.startswith("known: "):
                    fields = dict(part.split("=", 1) for part in line.split()[1:3])
                    result.append((fields["property"], fields["identity"], line.split(None, 3)[3].strip()))
    return result


def write_evidence(identifier, tier, seed, level, coverage, wall, violations, assumptions=()):
    os.makedirs(EVIDENCE, exist_ok=True)
    document = {"property": identifier, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                "wall_s": round(wall, 3), "violations": violations, "assumptions": list(assumptions)}
    path = os.path.join(EVIDENCE, identifier + ".json")
    with open(path + ".tmp", "w") as out:
        json.dump(document, out, indent=1)
        out.write("\n")
    os.replace(path + ".tmp", path)


class Result:
    """What one engine explored."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.labels = {}
        self.samples = []
        self.rule = ""
        self.notes = []
        self.extra = {}
        self.failures = []      # dictionaries: message and whatever the replay needs

    def add_labels(self, labels):
        for name, count in labels.items():
            self.labels[name] = self.labels.get(name, 0) + count
