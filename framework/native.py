"""Runs harnesses built on harness/pbt.hpp: random search, replay, coverage-guided fuzzing."""
import array
import concurrent.futures
import glob
import json
import os
import subprocess
import time

from . import common


def run_workers(workspace, binary, seed, cases, seconds, name, result, env=None, workers=common.CORES, cwd=None):
    """Random search by several processes."""
    def worker(index):
        prefix = workspace.file("%s-out-%d" % (name, index))
        value = common.sub_seed(seed, name, index)
        process = subprocess.run([binary, "--run", str(value), str(cases), str(seconds), prefix],
                                 env=common.environment(env), cwd=cwd,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace",
                                 timeout=seconds + 300)
        if process.returncode == 79:
            raise common.Unsupported(process.stdout[-1500:])
        if process.returncode not in (0, 1) or not os.path.exists(prefix + ".json"):
            raise common.CheckError("worker of %s ended with %d: %s" % (name, process.returncode, process.stdout[-3000:]))
        with open(prefix + ".json") as source:
            report = json.load(source)
        hashes = array.array("Q")
        with open(prefix + ".hashes", "rb") as source:
            hashes.frombytes(source.read())
        return report, hashes

    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        outcomes = list(pool.map(worker, range(workers)))
    requested = 0
    for report, hashes in outcomes:
        result.evaluations += report["evaluations"]
        requested += report["requested"]
        result.distinct.update(hashes)
        result.add_labels(report["labels"])
        result.rule = report["rule"]
        if report["failed"]:
            failure = {key: report[key] for key in ("message", "kind", "seed", "from", "to", "choices")}
            failure["harness"] = name
            result.failures.append(failure)
    for report, _ in outcomes:
        result.samples += report["samples"][:2]
    result.samples = result.samples[:10]
    if not result.failures and result.evaluations < requested:
        result.notes.append("%s: time limit reached after %d of %d cases" % (name, result.evaluations, requested))


def reproduces(workspace, binary, failure, env=None, cwd=None):
    """Run a recorded failure once; returns the message or None."""
    if failure["kind"] == "choices":
        path = workspace.file("replay-choices")
        with open(path, "w") as out:
            out.write("\n".join(str(value) for value in failure["choices"]) + "\n")
        command = [binary, "--choices", path]
    else:
        command = [binary, "--range", str(failure["seed"]), str(failure["from"]), str(failure["to"])]
    process = subprocess.run(command, env=common.environment(env), cwd=cwd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, errors="replace", timeout=800)
    if process.returncode == 0:
        return None
    if process.returncode == 1:
        return process.stdout.strip()
    if process.returncode == 79:
        raise common.Unsupported(process.stdout[-1500:])
    raise common.CheckError("replay ended with %d: %s" % (process.returncode, process.stdout[-3000:]))


def fuzz(workspace, source, extra, seed, seconds, name, result, random_binary, env=None):
    """Coverage-guided search over choices of the same harness."""
    binary = workspace.harness(source, "fuzz", name + "-fuzz", ["-fsanitize=fuzzer", "-DPBT_FUZZ"] + list(extra))
    before = time.time()

    def job(index):
        corpus = workspace.file("%s-corpus-%d" % (name, index))
        os.makedirs(corpus, exist_ok=True)
        out = workspace.file("%s-found-%d" % (name, index))
        log = workspace.file("%s-fuzz-%d.log" % (name, index))
        with open(log, "wb") as stream:
            subprocess.run([binary, "-seed=%d" % (common.sub_seed(seed, name, "fuzz", index) % 0x7fffffff + 1),
                            "-max_total_time=%d" % seconds, "-max_len=%d" % (1024 if index % 2 else 8192), "-len_control=20",
                            "-timeout=120", "-rss_limit_mb=3500", "-artifact_prefix=" + corpus + "-crash-",
                            "-print_final_stats=1", "-verbosity=0", corpus],
                           env=common.environment(dict(env or {}, PBT_FUZZ_OUT=out)), stdout=stream, stderr=stream,
                           timeout=seconds + 400)
        executed = 0
        with open(log, errors="replace") as stream:
            for line in stream:
                if "number_of_executed_units" in line:
                    executed = int(line.split()[-1])
        return executed, len(os.listdir(corpus)), glob.glob(out + ".*")

    with concurrent.futures.ThreadPoolExecutor(common.CORES) as pool:
        outcomes = list(pool.map(job, range(common.CORES)))
    result.extra["fuzzing"] = {"engine": "libFuzzer over choices of the same harness",
                               "executions": sum(o[0] for o in outcomes),
                               "inputs_kept_for_new_coverage": sum(o[1] for o in outcomes),
                               "seconds": round(time.time() - before, 1)}
    result.evaluations += sum(o[0] for o in outcomes)
    for index, (_, _, found) in enumerate(outcomes):
        for path in found:
            prefix = workspace.file("%s-shrunk-%d" % (name, index))
            process = subprocess.run([random_binary, "--shrink", path, prefix], env=common.environment(env),
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            if process.returncode == 1:
                with open(prefix + ".json") as source_file:
                    report = json.load(source_file)
                failure = {key: report[key] for key in ("message", "kind", "seed", "from", "to", "choices")}
                failure["harness"] = name
                result.failures.append(failure)
            else:
                result.notes.append("fuzzing: an input which does not fail outside of the fuzzer was ignored")
