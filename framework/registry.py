"""What is run for every property."""
import concurrent.futures
import os
import re

from . import common, native


class Native:
    """A harness over libraries of the repository."""

    technique = ("property-based testing of the library against an independent reference model, under sanitizers, "
                 "with shrinking; coverage-guided fuzzing of the same property in the thorough tier")
    level_note = ("Random and coverage-guided search over generated cases, no proof of absence. Trusts the reference "
                  "model in harness/model.hpp, sanitizers and the compiler.")

    def __init__(self, identifier, quick, thorough, fuzz_seconds=100, env=None, assumptions=()):
        self.identifier = identifier
        self.source = identifier.lower() + ".cpp"
        self.cases = {"quick": quick, "thorough": thorough}
        self.fuzz_seconds = fuzz_seconds
        self.env = env
        self.assumptions = list(assumptions) + [
            "sanitizers, the compiler and the C++ library are trusted",
            "numbers are small dyadic rationals, so that arithmetic of doubles is exact"]
        self.binary = None

    def build(self, workspace):
        if self.binary is None:
            self.binary = workspace.harness(self.source, "san", self.identifier)
        return self.binary

    def explore(self, workspace, tier, seed):
        result = common.Result()
        binary = self.build(workspace)
        native.run_workers(workspace, binary, seed, self.cases[tier], 300 if tier == "quick" else 600,
                           self.identifier, result, self.env)
        if tier == "thorough" and not result.failures and self.fuzz_seconds:
            native.fuzz(workspace, self.source, [], seed, self.fuzz_seconds, self.identifier, result, binary, self.env)
        return result

    def replay(self, workspace, failure):
        return native.reproduces(workspace, self.build(workspace), failure, self.env)


class Program(Native):
    """A harness which launches the program, built with sanitizers and built with OpenMP."""

    technique = ("property-based testing of the whole program: generated files, options and injected faults against the "
                 "reference model and an explicit contract of failures, with shrinking")
    level_note = ("Random search over generated launches, no proof of absence. Trusts the reference model in "
                  "harness/model.hpp and the reference PGM parser in harness/pgm.hpp.")

    def build(self, workspace):
        if self.binary is None:
            sanitized = workspace.libraries("san", ["stereo_parallel"])
            parallel = workspace.libraries("omp", common.LIBRARIES + ["stereo_parallel"])
            release = workspace.libraries("release", ["stereo_parallel"])
            scratch = workspace.file("scratch")
            os.makedirs(scratch)
            self.env = {"PBT_PROGRAM": os.path.join(sanitized, "lib", "stereo_parallel"),
                        "PBT_PROGRAM_RELEASE": os.path.join(release, "lib", "stereo_parallel"),
                        "PBT_PROGRAM_OMP": os.path.join(parallel, "lib", "stereo_parallel"),
                        "PBT_SCRATCH": scratch}
            self.binary = workspace.harness(self.source, "omp", self.identifier)
        return self.binary


class Memory(Native):
    """C25: the program works inside of the harness, with allocations which fail."""

    technique = ("property-based testing with injected faults: generated launches and steps of the library in which chosen allocations fail; oracle: the same work "
                 "without faults, an explicit contract of failures, and counts of blocks in use over repetitions; with shrinking")
    level_note = ("Random search over launches, steps and failing allocations (all of C++ code go through operators of the harness), no proof of absence. "
                  "The build without OpenMP is used. Trusts sanitizers and the C++ library.")

    def build(self, workspace):
        if self.binary is None:
            workspace.libraries("san")
            scratch = workspace.file("scratch")
            os.makedirs(scratch, exist_ok=True)
            self.env = {"PBT_SCRATCH": scratch}
            main = workspace.compile(os.path.join(common.REPO, "lib", "main.cpp"), common.FLAVORS["san"][2].split() + ["-Dmain=repo_main"], "main.o",
                                     what="build of the program")
            self.binary = workspace.harness(self.source, "san", self.identifier, objects=[main], extra=["-Wno-mismatched-new-delete"], libraries=["-lboost_program_options"])
        return self.binary


class Threads(Native):
    """C13: sequential schedules, real threads and controlled interleavings."""

    technique = ("property-based testing with generated splits, orders and interleavings: a cooperative scheduler switches "
                 "OpenMP threads at single memory accesses; the reference model is the oracle; plus runs with real threads")
    level_note = ("Random search over problems and schedules (random walks, priorities with change points, round robin), no "
                  "proof of absence. Interleavings are sequentially consistent; weaker memory orders are only reached by "
                  "runs with real threads. Trusts the reference model and the stand-in of the OpenMP runtime.")

    PARTS = {"quick": {"C13": 6000, "C13_threads": 1500, "C13_schedules": 6000},
             "thorough": {"C13": 80000, "C13_threads": 25000, "C13_schedules": 100000}}
    REAL = ("C13_threads",)

    def __init__(self):
        Native.__init__(self, "C13", 0, 0, assumptions=[
            "controlled interleavings are sequentially consistent at the level of single loads and stores of the compiled code"])
        self.binaries = {}
        self.seconds = {"quick": 120, "thorough": 250}

    def build_part(self, workspace, part):
        if part in self.binaries:
            return self.binaries[part]
        if part == "C13":
            binary = workspace.harness("c13.cpp", "san", part)
        elif part == "C13_threads":
            binary = workspace.harness("c13_threads.cpp", "omp", part)
        else:
            build = workspace.libraries("tsan")
            main = workspace.compile(os.path.join(common.HARNESS, "c13_schedules.cpp"),
                                     ["-O1", "-g", "-Wno-changes-meaning"], "c13_schedules.o")
            # Instrumented code comes first, so that shared inline functions are taken from it.
            binary = workspace.file(part)
            linked = common.run(["g++", "-Wl,--whole-archive"]
                                + [os.path.join(build, "lib", "lib%s.a" % name) for name in common.LIBRARIES]
                                + ["-Wl,--no-whole-archive", main, "-o", binary], check=False)
            if linked.returncode != 0:
                print("controlled interleavings are skipped, the code needs more of the OpenMP runtime:\n" + linked.stdout[-1500:])
                binary = None
        self.binaries[part] = binary
        return binary

    def explore(self, workspace, tier, seed):
        total = common.Result()
        rules = []
        for part, cases in self.PARTS[tier].items():
            binary = self.build_part(workspace, part)
            if binary is None:
                total.notes.append("controlled interleavings were skipped")
                continue
            result = common.Result()
            workers = 4 if part in self.REAL else common.CORES
            native.run_workers(workspace, binary, seed, cases, self.seconds[tier], part, result, {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "100"},
                               workers=workers)
            total.evaluations += result.evaluations
            total.extra_distinct += len(result.distinct)
            total.add_labels({part + ": " + name: count for name, count in result.labels.items()})
            total.samples += result.samples[:4]
            total.notes += result.notes
            total.failures += result.failures
            rules.append(part + ": " + result.rule)
            if result.failures and part in self.REAL:
                for failure in result.failures:
                    failure["observed_is_enough"] = True
            if result.failures:
                break
        total.rule = " / ".join(rules)
        if tier == "thorough" and not total.failures and self.fuzz_seconds:
            native.fuzz(workspace, self.source, [], seed, self.fuzz_seconds, self.identifier, total, self.build_part(workspace, self.identifier))
        return total

    def replay(self, workspace, failure):
        binary = self.build_part(workspace, failure["harness"])
        for _ in range(20 if failure["harness"] in self.REAL else 1):
            message = native.reproduces(workspace, binary, failure, {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "100"})
            if message:
                return message
        return None


class Independence(Threads):
    """C23: problems handled step by step in turn, and by several threads at the same time."""

    technique = ("stateful property-based testing: random interleavings of steps of several problems, judged by the reference model and by snapshots of "
                 "all objects after each step; the same with real threads under the detector of data races")
    level_note = ("Random search over problems and orders of steps, no proof of absence. Interleavings of real threads are up to the system, "
                  "but accesses which can race are detected without the harmful interleaving. Trusts the reference model and ThreadSanitizer.")
    PARTS = {"quick": {"C23": 2500, "C23_race": 500, "C23_openmp": 500},
             "thorough": {"C23": 30000, "C23_race": 6000, "C23_openmp": 6000}}
    BUILDS = {"C23": ("c23.cpp", "san", []), "C23_race": ("c23_threads.cpp", "race", ["-pthread"]),
              "C23_openmp": ("c23_threads.cpp", "omp", ["-pthread"])}
    REAL = ("C23_race", "C23_openmp")

    def __init__(self):
        Native.__init__(self, "C23", 0, 0, assumptions=["ThreadSanitizer is trusted"])
        self.binaries = {}
        self.seconds = {"quick": 60, "thorough": 200}

    def build_part(self, workspace, part):
        if part not in self.binaries:
            source, flavor, extra = self.BUILDS[part]
            self.binaries[part] = workspace.harness(source, flavor, part, extra)
        return self.binaries[part]


class Device(Native):
    """C20, C21: the code of a device runs on a stand-in, which interleaves threads at single accesses to the memory."""

    ASAN = common.ASAN_OPTIONS + ":detect_stack_use_after_return=0"

    def __init__(self, identifier, quick, thorough, assumptions):
        Native.__init__(self, identifier, quick, thorough, 0, assumptions=assumptions + [
            "single accesses to the memory of the device are sequentially consistent",
            "numbers are exact in single precision, which is what devices compute in"])

    def build(self, workspace):
        if self.binary is None:
            self.scratch = workspace.file("scratch")
            os.makedirs(self.scratch, exist_ok=True)
            self.env = {"PBT_SCRATCH": self.scratch, "ASAN_OPTIONS": self.ASAN}
            self.binary = self.compile(workspace)
        return self.binary

    def explore(self, workspace, tier, seed):
        result = common.Result()
        try:
            binary = self.build(workspace)
            native.run_workers(workspace, binary, seed, self.cases[tier], 240 if tier == "quick" else 700,
                               self.identifier, result, self.env, cwd=common.REPO)
        except common.Unsupported as error:
            result.notes.append("skipped, the code needs what the stand-in of the device does not have: " + str(error)[-1500:])
            result.inconclusive = True
            result.rule = "nothing was run"
        return result

    def replay(self, workspace, failure):
        try:
            return native.reproduces(workspace, self.build(workspace), failure, self.env, cwd=common.REPO)
        except common.Unsupported as error:
            print("skipped: " + str(error))
            return None


class OpenCL(Device):
    technique = ("property-based testing of the OpenCL host code and kernels on a stand-in of the OpenCL library: generated problems, "
                 "work group sizes and schedules which switch work items at single accesses to buffers; oracle: reference model and the CPU search")
    level_note = ("Random search over problems and schedules, no proof of absence. Trusts the stand-in of the OpenCL library in "
                  "harness/opencl.hpp (kernels are compiled by clang as OpenCL C 1.2) and the reference model; no real device is used.")

    def compile(self, workspace):
        return self.compile_harness(workspace, self.source, self.identifier)

    @staticmethod
    def compile_harness(workspace, source, output, program=False):
        cc, cxx, flags, _ = common.FLAVORS["san"]
        build = workspace.file("repo-opencl")
        flags += " -Wno-changes-meaning -DCL_TARGET_OPENCL_VERSION=120"
        common.run(["cmake", "-S", common.REPO, "-B", build, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=" + cc,
                    "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_CXX_FLAGS=" + flags, "-DWITH_OPENMP=OFF", "-DWITH_OPENCL=ON",
                    "-DWITH_CUDA=OFF", "-DBUILD_DOC=OFF"], what="configuration of the repository")
        libraries = common.LIBRARIES + ["gpu_csp", "compile_cl"]
        common.run(["ninja", "-C", build] + libraries, what="build of the repository")
        path = workspace.file(output)
        options = [cxx, "-std=c++17"] + flags.split() + ["-I" + os.path.join(common.REPO, "include"), "-I" + common.HARNESS]
        objects = []
        if program:
            objects = [workspace.file("main_opencl.o")]
            common.run(options + ["-DUSE_OPENCL", "-Dmain=repo_main", "-c", os.path.join(common.REPO, "lib", "main.cpp"), "-o", objects[0]],
                       what="build of the program")
        common.run(options + ["-rdynamic", os.path.join(common.HARNESS, source)] + objects + ["-Wl,--start-group"]
                   + [os.path.join(build, "lib", "lib%s.a" % name) for name in libraries]
                   + ["-Wl,--end-group"] + (["-lboost_program_options"] if program else []) + ["-ldl", "-o", path], what="build of the harness")
        return path


class Cuda(Device):
    technique = ("property-based testing of the CUDA host code and kernels on a stand-in of the CUDA runtime: generated problems and "
                 "schedules which switch threads at single accesses to the device memory; oracle: reference model and the CPU search")
    level_note = ("Random search over problems and schedules, no proof of absence. Trusts the stand-in of the CUDA runtime in "
                  "harness/cuda.hpp (both passes are compiled by g++ as C++) and the reference model; no real device or nvcc is used.")
    LAUNCH = re.compile(r"([A-Za-z_:][\w:]*)\s*<<<(.*?)>>>\s*\(", re.DOTALL)

    def compile(self, workspace):
        return self.compile_harness(workspace, self.source, self.identifier)

    @classmethod
    def compile_harness(cls, workspace, source, output, program=False):
        cxx, flags = "g++", common.SAN.split() + ["-Wno-changes-meaning"]
        lib = os.path.join(common.REPO, "lib")
        includes = ["-iquote", lib, "-I" + os.path.join(common.HARNESS, "cuda_stub"), "-I" + os.path.join(common.REPO, "include"),
                    "-I" + common.HARNESS]
        jobs, objects = [], []
        for name in sorted(os.listdir(lib)):
            if not name.endswith(".cu"):
                continue
            with open(os.path.join(lib, name), errors="replace") as code:
                text = code.read()
            host = workspace.file("host_" + name + ".cpp")
            with open(host, "w") as out:
                out.write(cls.LAUNCH.sub(lambda m: 'pbt_cuda::configure(%s).on("%s", %s)(' % (m.group(2), m.group(1), m.group(1)), text))
            # Functions of the device win over those which the pass for the host makes of them, so they come first.
            objects.insert(0, workspace.file("device_" + name + ".o"))
            jobs.append([cxx, "-std=c++17", "-x", "c++", "-D__CUDACC__", "-D__CUDA_ARCH__=600", "-include", "cuda_runtime.h"] + includes
                        + ["-O1", "-g", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-Wno-changes-meaning",
                           "-c", os.path.join(lib, name), "-o", objects[0]])
            objects.append(workspace.file("host_" + name + ".o"))
            jobs.append([cxx, "-std=c++17", "-D__CUDACC__", "-include", "cuda_launch.hpp"] + flags + includes + ["-c", host, "-o", objects[-1]])
        objects.append(workspace.file("labeling_finder.o"))
        jobs.append([cxx, "-std=c++17", "-DUSE_CUDA"] + flags + includes + ["-c", os.path.join(lib, "labeling_finder.cpp"), "-o", objects[-1]])
        if program:
            objects.append(workspace.file("main_cuda.o"))
            jobs.append([cxx, "-std=c++17", "-DUSE_CUDA", "-Dmain=repo_main"] + flags + includes
                        + ["-c", os.path.join(lib, "main.cpp"), "-o", objects[-1]])
        objects.append(workspace.file(output + ".o"))
        jobs.append([cxx, "-std=c++17", "-DPBT_CUDA"] + flags + includes + ["-c", os.path.join(common.HARNESS, source), "-o", objects[-1]])
        build = workspace.libraries("san")
        path = workspace.file(output)
        try:
            with concurrent.futures.ThreadPoolExecutor(common.CORES) as pool:
                list(pool.map(lambda job: common.run(job, what="build for the stand-in of CUDA"), jobs))
            archives = [os.path.join(build, "lib", "lib%s.a" % name) for name in common.LIBRARIES if name != "labeling_finder"]
            common.run([cxx] + flags + objects + ["-Wl,--start-group"] + archives + ["-Wl,--end-group"]
                       + (["-lboost_program_options"] if program else []) + ["-ldl", "-o", path], what="build for the stand-in of CUDA")
        except common.CheckError as error:
            raise common.Unsupported(str(error))
        return path


class DeviceProgram(Device):
    """C22, C24: the whole program built for OpenCL and for CUDA, on stand-ins of devices."""

    technique = ("property-based testing of the whole program built for OpenCL and for CUDA on stand-ins of both libraries: generated files, "
                 "options, schedules of devices and injected faults of devices; oracle: the program on CPU, and an explicit contract of failures")
    level_note = ("Random search over launches, schedules and faults, no proof of absence. Trusts stand-ins of device libraries in "
                  "harness/opencl.hpp and harness/cuda.hpp; no real device is used.")
    PARTS = {"opencl": OpenCL, "cuda": Cuda}
    PROGRAM = True

    def __init__(self, identifier, quick, thorough, assumptions):
        Device.__init__(self, identifier, quick, thorough, assumptions)
        self.binaries = {}

    def build_part(self, workspace, part):
        if part not in self.binaries:
            scratch = workspace.file("scratch")
            os.makedirs(scratch, exist_ok=True)
            self.env = {"PBT_SCRATCH": scratch, "ASAN_OPTIONS": self.ASAN}
            self.binaries[part] = self.PARTS[part].compile_harness(workspace, self.source, self.identifier + "_" + part, program=self.PROGRAM)
        return self.binaries[part]

    def explore(self, workspace, tier, seed):
        total = common.Result()
        skipped = 0
        for part in self.PARTS:
            result = common.Result()
            try:
                binary = self.build_part(workspace, part)
                native.run_workers(workspace, binary, seed, self.cases[tier], 120 if tier == "quick" else 350,
                                   self.identifier + "_" + part, result, self.env, cwd=common.REPO)
            except common.Unsupported as error:
                total.notes.append(part + " is skipped, the code needs what the stand-in of the device does not have: " + str(error)[-1500:])
                skipped += 1
                continue
            total.evaluations += result.evaluations
            total.extra_distinct += len(result.distinct)
            total.add_labels({part + ": " + name: count for name, count in result.labels.items()})
            total.samples += result.samples[:5]
            total.notes += result.notes
            total.failures += result.failures
            total.rule = result.rule
            if result.failures:
                break
        total.inconclusive = skipped == len(self.PARTS)
        total.rule = total.rule or "nothing was run"
        return total

    def replay(self, workspace, failure):
        try:
            return native.reproduces(workspace, self.build_part(workspace, failure["harness"].split("_")[1]), failure, self.env, cwd=common.REPO)
        except common.Unsupported as error:
            print("skipped: " + str(error))
            return None


class DeviceRounding(DeviceProgram):
    """C27: searches on devices, which compute in single precision, with numbers which are not exact."""

    technique = ("property-based testing of the host code and kernels on stand-ins of OpenCL and CUDA libraries: generated problems with weights which are "
                 "not exact, schedules of devices; oracle: a model in extended precision and the definition of a labeling")
    level_note = DeviceProgram.level_note
    PROGRAM = False

    def __init__(self, identifier, quick, thorough):
        DeviceProgram.__init__(self, identifier, quick, thorough, ["stand-ins of device libraries follow their specifications where the code relies on them"])
        self.assumptions = [a for a in self.assumptions if not a.startswith("numbers are exact")]


CHECKS = {check.identifier: check for check in [
    Native("C01", 200000, 2000000),
    Native("C02", 80000, 800000),
    Native("C03", 120000, 1200000),
    Native("C04", 300000, 4000000),
    Native("C05", 12000, 150000),
    Native("C06", 50000, 500000),
    Native("C07", 250000, 2500000),
    Native("C08", 25000, 250000),
    Native("C09", 9000, 100000),
    Native("C10", 12000, 120000),
    Native("C11", 20000, 200000),
    Native("C12", 9000, 90000),
    Threads(),
    Native("C14", 4000, 40000),
    Native("C15", 22000, 220000),
    Native("C16", 2500, 30000),
    Native("C17", 13000, 150000),
    Program("C18", 900, 12000, fuzz_seconds=0),
    Program("C19", 2500, 30000, fuzz_seconds=0),
    OpenCL("C20", 1300, 15000, ["the stand-in of the OpenCL library follows the specification where the code relies on it"]),
    Cuda("C21", 1300, 15000, ["the stand-in of the CUDA runtime follows the specification where the code relies on it",
                              "a launch that fits one wave of blocks can wait for all its threads"]),
    DeviceProgram("C22", 300, 6000, ["stand-ins of device libraries follow their specifications where the code relies on them"]),
    Independence(),
    DeviceProgram("C24", 280, 6000, ["stand-ins of device libraries report faults like the libraries do: by the result of a call, or, if a kernel "
                                     "fails, by results of all later calls"]),
    Memory("C25", 2500, 25000, fuzz_seconds=0),
    Native("C26", 10000, 100000),
    DeviceRounding("C27", 650, 9000),
]}
