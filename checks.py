"""Build flavours and the checks of each property."""
_W = ["-Wno-unused-value", "-Wno-unknown-pragmas", "-Wno-unused-result", "-pthread", "-fno-rtti", "-fno-exceptions"]

_WRAP = ["-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=pthread_once"]
_COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]

FLAVOURS = {
    # Assertions on, address + undefined-behaviour sanitizers.
    "asan": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                        "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    },
    # Release build: assertions off.
    "ndebug": {
        "cxx": "g++",
        "common": _W + ["-O2", "-DNDEBUG"],
    },
    # Plain debug build, as the repository's own tests use.
    "debug": {
        "cxx": "g++",
        "common": _W + ["-O1", "-g1"],
    },
    # The running case moves from thread to thread at its choices.
    "hop": {
        "cxx": "g++",
        "common": _W + ["-O1", "-g1", "-DPBT_HOP"],
    },
    # Deterministic schedules, preemption also between the library's memory accesses.
    "sched": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                        "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
        "rst": _COV,
        "link": _WRAP,
    },
    "schedn": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                        "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
        "rst": _COV,
        "link": _WRAP,
    },
    # The same with data race detection; the scheduler is invisible to it.
    "tsan": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
        "rst": _COV,
        "link": _WRAP,
        "lib": ["-fno-sanitize=thread"],
        "libs": ["pbt.cc"],
    },
    # Real threads with data race detection.
    "race": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
        "lib": ["-fno-sanitize=thread"],
        "libs": ["pbt.cc"],
    },
    # Coverage guided.
    "fuzz": {
        "cxx": "clang++",
        "common": _W + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer",
                        "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-DPBT_FUZZER"],
    },
}

S, SN, T = {"flavour": "sched"}, {"flavour": "schedn"}, {"flavour": "tsan"}
R = {"flavour": "race", "scenario": "threads"}
R2 = {"flavour": "race", "scenario": "shared"}
H = {"flavour": "hop", "scale": 0.15}
A, N, D = {"flavour": "asan"}, {"flavour": "ndebug"}, {"flavour": "debug"}

CHECKS = {
    "C01": {"harness": ["c01.cc"], "runs": [A, N, R, H, R2]},
    "C02": {"harness": ["c02.cc"], "runs": [A, N, R, H, R2]},
    "C03": {"harness": ["c03.cc"], "runs": [A, N, R, H]},
    "C04": {"harness": ["c04.cc"], "runs": [A, N, R, H, R2]},
    "C05": {"harness": ["c05.cc"], "runs": [A, N, R, H]},
    "C06": {"harness": ["c06.cc"], "runs": [A, N, R, H, R2]},
    "C07": {"harness": ["c07.cc"], "runs": [A, N, R, H]},
    "C08": {"harness": ["c08.cc"], "runs": [A, N, R, H]},
    "C09": {"harness": ["c09.cc"], "libs": ["sysfault.cc"], "runs": [A, N, R, H]},
    "C10": {"harness": ["c10.cc"], "libs": ["sysfault.cc"], "runs": [A, N]},
    "C11": {"harness": ["c11.cc"], "libs": ["sysfault.cc"], "runs": [A, N]},
    "C12": {"harness": ["c12.cc"], "runs": [A, N, R, H]},
    "C13": {"harness": ["c13.cc"], "runs": [A, N, R, H]},
    "C18": {"harness": ["c18.cc"], "runs": [A, N, R, H]},
    "C19": {"harness": ["c19.cc"], "runs": [A, N, R, H, R2]},
    "C20": {"harness": ["c20.cc"], "runs": [A, N, R, H, R2]},
    "C14": {"harness": ["c14.cc"], "libs": ["detsched.cc"], "runs": [S, SN, {"flavour": "tsan", "scenario": "concurrent"}]},
    "C21": {"harness": ["c21.cc"], "libs": ["detsched.cc"], "runs": [S, SN, T]},
    "C22": {"harness": ["c22.cc"], "libs": ["detsched.cc"], "runs": [S, SN, {"flavour": "tsan", "scenario": "concurrent"}]},
    "C23": {"harness": ["c23.cc"], "libs": ["detsched.cc"], "runs": [S, SN, T]},
    "C24": {"harness": ["c24.cc"], "libs": ["detsched.cc"], "runs": [S, SN, T]},
    "C25": {"harness": ["c25.cc"], "libs": ["detsched.cc"], "runs": [S, SN, T]},
    "C26": {"harness": ["c26.cc"], "libs": ["detsched.cc"], "runs": [S, SN, T]},
    "C27": {"harness": ["c27.cc"], "runs": [A, N, R, H]},
    "C28": {"harness": ["c28.cc"], "runs": [A, N, R, H]},
    "C29": {"harness": ["c29.cc"], "runs": [A, N, R, H]},
    "C30": {"harness": ["c30.cc"], "runs": [A, N, R, H]},
    "C31": {"harness": ["c31.cc"], "runs": [A, N, R, H]},
    "C32": {"harness": ["c32.cc"], "runs": [A, N, R, H]},
    "C15": {"harness": ["c15.cc"], "runs": [A, N, R, H]},
    "C16": {"harness": ["c16.cc"], "runs": [A, N, R, H]},
    "C17": {"harness": ["c17.cc"], "runs": [A, N, R, H, R2]},
}

from checks_meta import META  # noqa: E402
for _i, _m in META.items():
    for _k, _v in _m.items():
        CHECKS[_i].setdefault(_k, _v)
