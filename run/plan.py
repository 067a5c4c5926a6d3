"""What each property's check runs."""
from check import machine, design, cases, frame
from optprog import optprog
from share import share

LEVEL = {}
ASSUME = {"*": [
    "the harness (Rust, /verif/harness) reports faithfully what the public API returned",
    "the bounds listed under stages; caller functions are the fixed order-sensitive hashes of TensorOps.tla",
]}


def m(q, t):
    """machine stage with quick and thorough parameters (cstride, nhist, nstep)"""
    def f(ctx):
        p = t if ctx.deep() else q
        machine(ctx, cstride=p[0], nhist=p[1], nstep=p[2])
    return f


def seq(*fs):
    def f(ctx):
        for g in fs:
            g(ctx)
    return f


def uniform_known(ctx, text, rec):
    k = text.count('"@KNOWN uniform"')
    if k:
        ctx.known.append("random_uniform fills from the generator's normal stream, element i = min + (max - min) * next_normal_i "
                         "(src/init/random.rs:random_uniform; pinned by test_uniform); seen in every one of the %d uniform cases where it makes a difference" % k)


PLAN = {
    "C01": m((5, 1500, 20), (2, 20000, 40)),
    "C02": share,
    "C03": seq(m((7, 1500, 20), (3, 20000, 40)), lambda ctx: [frame(ctx, f) for f in ("Arith", "Reduce", "Mat", "Fft", "Hist", "Space", "Wav")]),
    "C04": m((1, 400, 14), (1, 6000, 30)),
    "C05": m((1, 400, 14), (1, 6000, 30)),
    "C06": m((1, 400, 14), (1, 6000, 30)),
    "C07": lambda ctx: cases(ctx, "Shape"),
    "C08": m((1, 400, 14), (1, 6000, 30)),
    "C09": lambda ctx: cases(ctx, "Arith"),
    "C10": m((1, 400, 14), (1, 6000, 30)),
    "C11": lambda ctx: cases(ctx, "Reduce"),
    "C12": seq(m((1, 400, 14), (1, 6000, 30)), lambda ctx: cases(ctx, "Reduce")),
    "C13": m((1, 400, 14), (1, 6000, 30)),
    "C14": m((1, 400, 14), (1, 6000, 30)),
    "C15": m((1, 400, 14), (1, 6000, 30)),
    "C16": m((1, 400, 14), (1, 6000, 30)),
    "C17": lambda ctx: cases(ctx, "Space"),
    "C18": lambda ctx: cases(ctx, "Mat"),
    "C19": lambda ctx: cases(ctx, "Rand"),
    "C20": seq(lambda ctx: design(ctx, "Seed", "SeedDeep.cfg" if ctx.deep() else "Seed.cfg"), lambda ctx: cases(ctx, "Seed")),
    "C21": lambda ctx: cases(ctx, "Rten", known=uniform_known),
    "C22": lambda ctx: cases(ctx, "Hist"),
    "C23": lambda ctx: cases(ctx, "Fft"),
    "C24": lambda ctx: cases(ctx, "Wav"),
    "C25": seq(lambda ctx: design(ctx, "Read", "Read.cfg"), lambda ctx: cases(ctx, "Read", confirm=20)),
    "C26": optprog,
    "C27": m((1, 400, 14), (1, 6000, 30)),
}

_CASE = "TLA+ value semantics; TLC-generated cases executed on the library; recorded results decided by TLC"
TECH = {"*": "TLA+ machine model; TLC-generated histories executed on the library; recorded traces validated by TLC",
        "C02": "TLA+ model of shared storage (TLC); generated schedules and races executed; recorded traces validated by TLC",
        "C20": "TLA+ model of the seed claim refining an atomic specification (TLC); all its schedules replayed through gates; histories linearised by TLC",
        "C25": "TLA+ model of portioned reads (TLC); generated portionings replayed through pipes; results decided by TLC",
        "C26": "TLA+ model of option histories; TLC-generated programs compiled and run; recorded field values decided by TLC"}
for _p in ("C07", "C09", "C11", "C17", "C18", "C19", "C21", "C22", "C23", "C24"):
    TECH[_p] = _CASE
NOTE = {"*": "bounded-exhaustive cases plus seeded pseudo-random histories generated from the specification with TLC; every recorded "
             "event must be a transition the specification allows (trace validation), so conformance is decided up to the explored bounds"}
NA = {}
