#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = " Held on the executions described in the evidence file, not a proof."
DAG = "online event log of starts, ends, calls and returns, judged against an executable model of the target graph"
FILES = "recorded recipe executions and file system states of build histories, judged against an executable model of the project"
T = {
    "C01": (DAG, "random target graphs with concurrent, repeated and named requests under perturbed schedules (instrumented statements)"),
    "C02": ("execution-counting targets under garbage-collection pressure and address aliasing", "fresh targets of many types on long-lived controllers; first-field and zero-size types"),
    "C03": (DAG, "All, own targets and Run calls with failing and unusable targets"),
    "C04": (DAG, "Seq and Deps nested in random graphs, Go and YAML"),
    "C06": ("Go race detector; registry contents, looked-up values and configuration snapshots before and after", "API storms of 2 to 8 goroutines on shared controllers, targets and registries, not synchronized by the harness"),
    "C07": (FILES, "random histories of builds and edits of chained Files projects, in one or several processes, Go and YAML, real and in-memory databases"),
    "C08": (FILES, "as C07, with re-read, reordered and repeated definitions and touched files"),
    "C09": (FILES, "chains and output directories; the whole scratch tree is compared with the model's after every build"),
    "C12": (FILES, "forced and database-less builds mixed into the histories"),
    "C18": ("reference copier compared byte by byte after every Write; indentation checked after every Run", "random chunkings, nested levels, faulty and panicking writers and targets"),
    "C13": ("recorded histories of Has and Add calls checked for linearizability (porcupine), with many handles and processes and SIGKILL", "concurrent goroutines, handles and processes on one file; histories are checked per entry; durability over kill and reopen"),
    "C14": ("an executable model of the entries' ages against the database with ages set in its file", "random histories over keep periods and update-on-access; ages are chosen, never waited for"),
    "C15": ("scripted child processes report argv, environment, directory and standard input; results compared with the definition", "random Go and YAML Commands, exit statuses, signals, shells and shell lists"),
    "C16": ("scripted child processes write known chunks; every possible destination is compared with what was directed there", "random destinations per stream, Go and YAML, concurrent Commands, failing Commands"),
    "C17": ("event log shared by all processes of a cancelled build", "random trees of Commands cancelled when everything reachable is known to run, or beforehand; then rebuilt"),
    "C10": (FILES + "; fab processes killed at chosen statements and by their own recipes, faulty and damaged databases", "histories of crashed, failed and normal builds; the final run must leave what an uninterrupted build leaves", "fault_enumeration"),
    "C11": ("snapshots of the project tree and of the hash database, recorded executions of tools", "random combinations of all built-in targets, in process and with the fab command, with and without driver, dry runs between real ones"),
    "C19": (DAG, "random YAML files against a Go model of the same structure, names, documentation and arguments"),
    "C20": ("executed leaves, registered names and file system states against an executable model of the project", "projects of several YAML files with all spellings of names, read from any current directory, with decoy files"),
    "C22": ("an independent model of the search from every directory of generated trees", "random project trees, declarations, symbolic links and starting directories"),
    "C23": ("registered recording targets against a model of name and argument selection", "random registries and argument lists, arguments observed inside the targets"),
    "C24": ("registry histories against a model; concurrent histories under perturbed schedules", "registration, lookup, listing and description, sequential and concurrent"),
    "C25": ("file system snapshots before and after against a model of what is named", "random trees, lists, autoclean sets and obstacles, Go and YAML"),
    "C26": ("the returned lists against those of go list -deps -json", "random modules with build constraints, embedded, assembly and C files, tests, other modules, workspaces, symbolic links and faults, in all spellings of directories"),
    "C27": ("the built programs are run beside programs built by the harness; go is wrapped to observe builds", "histories of edits of random modules, flags and outputs, Go and YAML"),
    "C28": ("the returned lists against a model checked against protoc --dependency_out; protoc is wrapped to observe its runs", "random sets of .proto files in several include directories; histories of edits and Proto runs"),
    "C32": ("the outputs against those of the generator library; identity and times of the output observed", "histories of edits and failures of random packages, Go and YAML"),
    "C21": ("supervised helper processes; crashes by their traces, hangs by goroutine states, processor time and memory", "generated, mutated and random build files among odd files, read and run by an unprivileged user", "exploration"),
    "C29": ("the drivers built are run; names, documentation and behaviour of their targets against those the generator intended", "random _fab packages of all kinds of declarations, with faults, and driver directories before and after failures"),
    "C30": ("markers printed by the executed driver against the sources at that time; go is wrapped to observe builds", "histories of edits, reverts, versions of fab, forced and concurrent runs, cache damage and kills at chosen statements and go commands", "fault_enumeration"),
    "C31": ("exit statuses, messages and effects of fab commands against an executable model of the project", "random projects, command lines and current directories, with and without compiled driver"),
    "C05": (DAG + "; deadlock decided by goroutine states, never by a clock", "rendezvous leaves force siblings to be started together"),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i not in T:
            na.append({"property": i, "reason": "its monitor is not built yet (work in progress; the technique applies, see DESIGN.md)"})
            continue
        tech, note = T[i][0], T[i][1]
        level = T[i][2] if len(T[i]) > 2 else "exploration"
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "runtime monitoring: " + tech,
            "level": level,
            "level_note": note + "." + COMMON,
        })
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: the instrumentation is added to copies of its sources at build time (instr/, go build -overlay)", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. fix: commits and known findings are listed in known_findings.txt.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
