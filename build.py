#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/.build (git-ignored).

Objects are cached by the content of everything they may include, so a changed tree
is always rebuilt. usage: build.py [asan]; prints the path of the binary."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RON_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
NOT_BUILT = {"string-parser.cc"}  # the project does not build it either

BS = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
RDB = "_ZN7rocksdb"
WRAP = [
    RDB + "2DB4OpenERKNS_7OptionsERK" + BS + "PPS0_",
    RDB + "2DB4OpenERKNS_9DBOptionsERK" + BS + "RKSt6vectorINS_22ColumnFamilyDescriptorESaISD_EEPSC_IPNS_18ColumnFamilyHandleESaISJ_EEPPS0_",
    RDB + "2DB18ListColumnFamiliesERKNS_9DBOptionsERK" + BS + "PSt6vectorIS9_SaIS9_EE",
    RDB + "8RepairDBERK" + BS + "RKNS_9DBOptionsERKSt6vectorINS_22ColumnFamilyDescriptorESaISC_EE",
    RDB + "8RepairDBERK" + BS + "RKNS_9DBOptionsERKSt6vectorINS_22ColumnFamilyDescriptorESaISC_EERKNS_19ColumnFamilyOptionsE",
    RDB + "8RepairDBERK" + BS + "RKNS_7OptionsE",
] + "time gettimeofday clock_gettime rand srand random srandom read open close stat getcwd mkdtemp chdir nftw _ZNSt13random_device9_M_getvalEv".split()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def content(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build(variant=""):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = ["-I" + HERE + "/sim/shim", "-I/usr/include/botan-2", "-I" + REPO + "/db", "-I" + REPO, "-I" + HERE + "/sim"]
    flags = ["-std=c++17", "-g1", "-O1", "-frtti", "-w"] + inc
    link = ["-lrocksdb", "-lbotan-2", "-lsnappy", "-lz", "-lbz2", "-lpthread", "-ldl"]
    if variant == "asan":
        san = ["-fsanitize=address", "-fno-omit-frame-pointer", "-DRONSIM_ASAN"]
        flags += san
        link = san + link
    srcs = [f for d in ("ron", "rdt", "db") for f in glob.glob(f"{REPO}/{d}/*.cc")
            if os.path.basename(f) not in NOT_BUILT]
    headers = [f for d in ("ron", "rdt", "db") for f in glob.glob(f"{REPO}/{d}/**/*", recursive=True)
               if os.path.isfile(f) and not f.endswith(".cc") and "/test/" not in f]
    mine = glob.glob(HERE + "/sim/*.cc")
    myh = glob.glob(HERE + "/sim/*.hpp") + glob.glob(HERE + "/sim/shim/*")
    hh = content(headers + glob.glob(HERE + "/sim/shim/*"))
    mh = content(myh)
    jobs = []
    for s in sorted(srcs + mine):
        own = s in mine
        extra = ["-Dmain=swarmdb_main"] if s == REPO + "/db/main.cc" else []
        key = sha(" ".join(flags + extra), hh, mh if own else "", content([s]), s)
        jobs.append((s, f"{OUT}/{os.path.basename(s)[:-3]}-{key}.o", extra))

    def cc(job):
        s, o, extra = job
        if os.path.exists(o):
            return None
        r = subprocess.run(["g++"] + flags + extra + ["-c", s, "-o", o + ".tmp"], capture_output=True, text=True)
        if r.returncode:
            return f"{s}:\n{r.stderr[:6000]}"
        os.rename(o + ".tmp", o)
        return None

    # slow ones first
    jobs.sort(key=lambda j: 0 if os.path.basename(j[0]).startswith(("w_", "replica", "main")) else 1)
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + "\n".join(errs))
        sys.exit(2)
    binp = f"{OUT}/ronsim-{sha(*[j[1] for j in jobs], ' '.join(link), ' '.join(WRAP))}"
    if not os.path.exists(binp):
        r = subprocess.run(["g++"] + [j[1] for j in jobs] + ["-o", binp + ".tmp"] + ["-Wl,--wrap=" + w for w in WRAP] + link,
                           capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n" + r.stderr[:8000])
            sys.exit(2)
        os.rename(binp + ".tmp", binp)
        keep = {j[1] for j in jobs}
        # forget older builds of this variant's objects when there are too many
        old = sorted((f for f in glob.glob(OUT + "/*") if f.endswith(".o") or "ronsim-" in f), key=os.path.getmtime)
        for f in old[:-300]:
            if f not in keep and f != binp:
                os.unlink(f)
    return binp


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else ""))
