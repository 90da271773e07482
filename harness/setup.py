"""setup_cmd: compiles the Java override of the arithmetic and checks it against its TLA+ definition."""
import json, os, random, shutil, subprocess, sys, tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

core.compile_java()
scratch = tempfile.mkdtemp(prefix="verif-setup-")
try:
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    path = os.path.join(scratch, "rand.ndjson")
    with open(path, "w") as f:
        for _ in range(40):
            v = rng.choice([0.0, rng.uniform(-2, 2), rng.gauss(0, 1) * 10 ** rng.uniform(-8, 8), float(rng.randint(-20000, 20000))])
            f.write(json.dumps({"x": core.bf(v)}) + "\n")
    p = core.tlc_start("MCBF", scratch, "mcbf", {"VERIF_TRACE": path}, 4)
    rc, text, gen, dist = core.tlc_wait(p, "MCBF", 600)
    if rc != 0:
        print(text[-3000:])
        sys.exit(1)
    print("arithmetic: override equals definition on %d states" % dist)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
