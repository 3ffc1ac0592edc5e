"""Which jobs decide which property."""
import os


def pool(c, mode, shards=None, steps=None):
    shards = shards or (24 if c.thorough() else 6)
    steps = steps or (12000 if c.thorough() else 4000)
    jobs = [dict(name="pool%d" % k, cmd=["pool", "-seed", str(c.seed * 1000 + k), "-mode", mode if k % 3 else "mixed", "-steps", str(steps)],
                 spec="PoolTrace") for k in range(shards)]
    # one history without end, and one with many validators
    for k, (m, n) in enumerate([("long", 12000), ("wide", 6000)] if c.thorough() else [("long", 4000), ("wide", 1500)]):
        jobs.append(dict(name="pool-" + m, cmd=["pool", "-seed", str(c.seed * 1000 + 80 + k), "-mode", m, "-steps", str(n)], spec="PoolTrace"))
    return jobs


POOL_NOTE = ("Histories of raw slots (transactions, events, beacon records) are generated around the forks, the clean-up slots and the fee "
             "changes of the three networks, given to the real AdvanceStateToNextSlot, and every step is validated by TLC against Pool.tla.")


ERAS = {"prefork1": 10186800, "fork1": 10189200, "electra": 11650800}


def small(c):
    """Every block of PoolMC's alphabet in every state PoolMC reaches, in the model and in the real code."""
    jobs = []

    def add(era, depth, rich, pieces):
        g = dict(name="small-%s-%d%s" % (era, depth, "-rich" if rich else ""), spec="PoolMC",
                 consts=dict(Base=ERAS[era], Depth=depth, Rich="TRUE" if rich else "FALSE"), timeout=3000 if c.thorough() else 700)
        for k in range(pieces):
            jobs.append(dict(name="%s.%d" % (g["name"], k), gen=g, spec="PoolTrace", timeout=3000 if c.thorough() else 700,
                             cmd=["replay", "-net", "mainnet", "-base", str(ERAS[era]), "-piece", str(k), "-pieces", str(pieces)]))
    for era in ERAS:
        if c.thorough():
            add(era, 3, False, 3)
            add(era, 2, True, 5)
        else:
            add(era, 2, False, 1)
            add(era, 1, True, 1)
    return jobs


SMALL_NOTE = ("TLC explores PoolMC.tla exhaustively (a pool of four validators, an alphabet of blocks, to a depth) in the three reward eras, checks the "
              "properties on the specification itself, and every transition it finds is replayed in the real code and compared.")


def poolcheck(mode):
    return both(P(mode), lambda c: (small(c), SMALL_NOTE))


def node(c, mode, shards=None, steps=None, long=False):
    shards = shards or (24 if c.thorough() else 6)
    steps = steps or (6000 if c.thorough() else 1500)
    return [dict(name="node%d" % k, cmd=["node", "-seed", str(c.seed * 1000 + 500 + k), "-mode", (mode if isinstance(mode, str) else mode[(k // 2) % len(mode)]) if k % 2 else "mixed", "-steps", str(steps)],
                 spec="NodeTrace") for k in range(shards)] + (
        # checkpoints by the hundred
        [dict(name="node-long", cmd=["node", "-seed", str(c.seed * 1000 + 580), "-mode", "long", "-steps", "6000" if c.thorough() else "900"],
              spec="NodeTrace")] if long else [])


def merkle(c, shards=None, steps=None):
    shards = shards or (16 if c.thorough() else 4)
    steps = steps or (6000 if c.thorough() else 1500)
    return [dict(name="tree%d" % k, cmd=["merkle", "-seed", str(c.seed * 1000 + 700 + k), "-steps", str(steps)],
                 spec="NodeTrace") for k in range(shards)]


NODE_NOTE = ("Three real oracles with their own state folders follow one generated chain; they freeze checkpoints, save, stop, start, load "
             "and roll back, on files that are sometimes damaged or foreign. TLC validates every step against Node.tla and compares what "
             "any two of them know about a slot, a checkpoint or a hash.")


# the checkpoint before the one in which the fee changes
RELOAD = {"mainnet": 14082458, "hoodi": 2801048, "holesky": 5000000}


def reload(net, depth=3, pieces=3):
    """Every history of saves, loads, rollbacks and damage of NodeMC, in the model and with real oracles."""
    def f(c):
        d, n = (depth + 2, 16) if c.thorough() else (depth, pieces)
        g = dict(name="reload-%s-%d" % (net, d), spec="NodeMC", consts=dict(Net='"%s"' % net, Base=RELOAD[net], Depth=d), timeout=3000 if c.thorough() else 700)
        return ([dict(name="%s.%d" % (g["name"], k), gen=g, spec="NodeTrace", timeout=3000 if c.thorough() else 700,
                      cmd=["nodereplay", "-seed", str(c.seed), "-net", net, "-base", str(RELOAD[net]), "-piece", str(k), "-pieces", str(n)]) for k in range(n)],
                RELOAD_NOTE)
    return f


RELOAD_NOTE = ("TLC explores NodeMC.tla exhaustively (one oracle, its folder and the folder of another one, over three checkpoints and a change of the fee: "
               "every order of advancing, saving, stopping, loading, rolling back, losing and damaging files, to a depth), checks the properties on the "
               "specification itself, and every history it finds is replayed with real oracles and compared.")
TREE_NOTE = ("States with any sharing of withdrawal addresses and any amounts are given to the real merklelizer; TLC recomputes leaves, root "
             "(keccak) and proofs.")


def recon(c, shards=None, steps=None):
    shards = shards or (16 if c.thorough() else 4)
    steps = steps or (6000 if c.thorough() else 1500)
    return [dict(name="recon%d" % k, cmd=["recon", "-seed", str(c.seed * 1000 + 800 + k), "-steps", str(steps)],
                 spec="ReconTrace") for k in range(shards)]


RECON_NOTE = ("States and on-chain facts (claims, contract balance, roots), true and slightly false ones, are given to the real on-chain and "
              "off-chain reconciliations; TLC decides from Recon.tla whether they had to accept.")


def save(c, shards=None, steps=None):
    shards = shards or (16 if c.thorough() else 6)
    steps = steps or (6000 if c.thorough() else 700)
    return [dict(name="save%d" % k, cmd=["save", "-seed", str(c.seed * 1000 + 900 + k), "-steps", str(steps)],
                 spec="SaveTrace") for k in range(shards)]


SAVE_NOTE = ("Every file system call of a save is interrupted (the process dies before it, after it or half way through a write) or refused "
             "(no space left after some bytes, i/o error) in the real code, through hooks below the os package; TLC checks what is left in the "
             "folder, what a new process loads from it, and that saving goes on; it also replays the calls on a model of the file system and "
             "looks at every moment in between.")


def fetch(c, shards=None, steps=None):
    shards = shards or (24 if c.thorough() else 6)
    steps = steps or (5000 if c.thorough() else 1300)
    return [dict(name="fetch%d" % k, cmd=["fetch", "-seed", str(c.seed * 1000 + 1100 + k), "-steps", str(steps)],
                 spec="FetchTrace", env={"VERIF_TIME_SCALE": "200000"}) for k in range(shards)]


FETCH_NOTE = ("The real fetching code reads blocks, duties, validators, events, receipts and contract values from fake consensus and execution "
              "nodes serving a generated chain, over HTTP, while requests are dropped, cut, garbled, answered with errors, with nothing or with "
              "something else; TLC decides from Fetch.tla whether what came out is what the chain holds or the attempt was allowed to fail, and "
              "then validates the slot it feeds against Pool.tla.")


def run(c, shards=None, steps=None):
    shards = shards or (24 if c.thorough() else 8)
    steps = steps or (14000 if c.thorough() else 7000)
    return [dict(name="run%d" % k, cmd=["run", "-seed", str(c.seed * 1000 + 1300 + k), "-steps", str(steps), "-bin", os.path.join(c.dir, "main"),
                                        "-port", str(20000 + 200 * k)],
                 spec="MainTrace", env={"VERIF_TIME_SCALE": "200000"}) for k in range(shards)]


RUN_NOTE = ("The program itself runs in its own process between a beacon node, an execution node and a contract of ours, and is held at every "
            "request it makes: there other oracles report, slots become final, answers fail, and it is stopped or killed and started again on the "
            "folder it left, on an empty one or on the state of another oracle. TLC validates requests, transactions, files and exits against "
            "Main.tla and Node.tla.")


def conf(c, shards=None, steps=None):
    shards = shards or (8 if c.thorough() else 4)
    steps = steps or (10000 if c.thorough() else 2500)
    return [dict(name="conf%d" % k, cmd=["conf", "-seed", str(c.seed * 1000 + 1400 + k), "-steps", str(steps)],
                 spec="ConfTrace", env={"VERIF_TIME_SCALE": "200000"}) for k in range(shards)]


CONF_NOTE = ("The real NewOnchain and GetConfigFromContract read chains and deployments of all kinds (supported and unknown networks, clients on "
             "different chains, wrong deployment slots, initializations as calls, inside creations, damaged, absent, besides other transactions) "
             "from nodes that fail; TLC decides from Config.tla what had to come out or be refused.")


def api(c, mode, shards=None, steps=None):
    shards = shards or (24 if c.thorough() else 8)
    steps = steps or (14000 if c.thorough() else 4000)
    return [dict(name="api%d" % k, cmd=["api", "-seed", str(c.seed * 1000 + 1500 + k), "-mode", mode, "-steps", str(steps), "-apiport", str(25000 + 300 * k)],
                 spec="ApiTrace") for k in range(shards)]


API_NOTE = ("The real HTTP service runs on a real oracle with a generated history, between fake nodes and relays, and answers requests for all its "
            "endpoints (known and unknown addresses and validators, malformed parameters, any contract state, later events, failing nodes); TLC "
            "derives the state and the frozen checkpoints with Pool.tla and Merkle.tla and decides from Api.tla whether each answer, or refusal, "
            "is right.")


def conc(c, shards=None, steps=None):
    shards = shards or (24 if c.thorough() else 8)
    steps = steps or (14000 if c.thorough() else 4000)
    return [dict(name="conc%d" % k, cmd=["conc", "-seed", str(c.seed * 1000 + 1700 + k), "-steps", str(steps), "-apiport", str(25000 + 300 * k)],
                 spec="ConcTrace", then=["Locks"]) for k in range(shards)] + [
            dict(name="race%d" % k, bin="vhr", cmd=["race", "-seed", str(c.seed * 1000 + 1800 + k), "-steps", "1200" if c.thorough() else "200",
                                                    "-apiport", str(25000 + 300 * (shards + k))], spec="ConcTrace") for k in range(8 if c.thorough() else 3)]


CONC_NOTE = ("The main loop's operations, saves by a signal, snapshots, dumps and HTTP requests run on one real oracle in goroutines that a scheduler "
             "of ours holds and lets go at every lock, log line, file system call and question to a node; TLC checks that everything that was read is "
             "one of the states between two operations and stays what it was, that dumps and files start another oracle, and, from the recorded "
             "orders of locking, every interleaving of any three operations for deadlock (Locks.tla).  The operations are atomic to a scheduler only if what "
             "they share is ordered: the state may change only under a lock that keeps the others out, and the same program, built with the race "
             "detector and run without the scheduler, reports what two of its own parts touch without order.")


def both(*parts):
    def f(c):
        js, notes = [], []
        for p in parts:
            j, n = p(c)
            js += j
            notes.append(n)
        return dict(jobs=js, explanation=" ".join(notes))
    return f


def instr(f, *assume):
    return lambda c: dict(f(c), instr=True, assumptions=list(assume))


def P(mode, shards=None, **kw):
    return lambda c: (pool(c, mode, (24 if c.thorough() else shards) if shards else None, **kw), POOL_NOTE)


def N(mode, shards=None, **kw):
    return lambda c: (node(c, mode, (24 if c.thorough() else shards) if shards else None, **kw), NODE_NOTE)


def T(shards=None):
    return lambda c: (merkle(c, (16 if c.thorough() else shards) if shards else None), TREE_NOTE)


def R(shards=None):
    return lambda c: (recon(c, (16 if c.thorough() else shards) if shards else None), RECON_NOTE)


def F(shards=None):
    return lambda c: (fetch(c, (24 if c.thorough() else shards) if shards else None), FETCH_NOTE)


def M(shards=None, **kw):
    return lambda c: (run(c, (24 if c.thorough() else shards) if shards else None, **kw), RUN_NOTE)


def G(shards=None):
    return lambda c: (conf(c, (8 if c.thorough() else shards) if shards else None), CONF_NOTE)


def A(mode, shards=None):
    return lambda c: (api(c, mode, (24 if c.thorough() else shards) if shards else None), API_NOTE)


def prog(f, *assumptions):
    g = instr(f, *assumptions)
    return lambda c: dict(g(c), main=True)


def submit(c):
    """The protocol of the main loop, exhaustively: safety with a liar and a crash, liveness without liars."""
    jobs = [("Submit", 4), ("SubmitLive", 2)] + ([("SubmitLive3", 4)] if c.thorough() else [])
    return ([dict(name="model-" + cfg, model=True, spec="Submit", cfg=cfg + ".cfg", workers=w, heap="6g", timeout=800) for cfg, w in jobs],
            "TLC explores Submit.tla (the main loops of several oracles, crashes, a liar, the contract's quorum) exhaustively: what is consolidated is "
            "right, nobody votes twice or against its own state, and honest oracles reach every checkpoint.")


JOBS = {p: poolcheck(p) for p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"]}
for p in ["P05", "P06", "P07", "P08", "P09", "P10"]:
    JOBS[p] = instr(both(P(p), lambda c: (small(c), SMALL_NOTE), F(2)))
JOBS["P11"] = both(N(["P10", "P03", "P07"], long=True), T(2))
JOBS["P12"] = prog(both(P("P12", 3), N("P12", 2), F(2), M(4)))
JOBS["P13"] = prog(both(P("P13"), N("P13", 3), reload("hoodi", 2, 1), F(2), M(2)))
JOBS["P14"] = both(T(), N("mixed", 3, long=True))
JOBS["P15"] = prog(both(N("mixed", long=True), reload("holesky"), T(2), M(4)))
JOBS["P16"] = prog(both(N("P13", long=True), reload("mainnet"), M(2)))
JOBS["P17"] = prog(both(N("P13", 4, long=True), reload("mainnet"), M(6)))
JOBS["P19"] = prog(both(submit, M(), F(2)), "the contract itself (its quorum and its own checks of a report) is part of the fake nodes: it takes the first root "
                   "that reaches the quorum for the next checkpoint slot")
JOBS["P25"] = instr(both(R(), F(2)))
JOBS["P26"] = prog(both(G(), M(4)))
JOBS["P24"] = prog(both(F(), M(3)), "a node whose answer is well formed but false (an empty list of events, a wrong balance) cannot be told from an "
                    "honest one; such answers are not injected")
for p in ["P20", "P21", "P22"]:
    JOBS[p] = lambda c, p=p: dict(jobs=api(c, p), explanation=API_NOTE)
JOBS["P23"] = lambda c: dict(jobs=conc(c), explanation=CONC_NOTE, instr=True, race=True,
                             assumptions=["what runs between two of the scheduler's points runs without interruption"])
JOBS["P18"] = lambda c: dict(jobs=save(c), explanation=SAVE_NOTE, instr=True,
                             assumptions=["a crash is the death of the process: what was written before it is still there"])
