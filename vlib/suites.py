"""Which suites decide which property."""
from .suite import Suite
from . import adapter, console, debug, inputs, life, opening, session, term

ASSUMPTIONS = ['the simulated Win32 layer in /verif/sim behaves like Windows where the code can tell', 'the native build of the same sources behaves like the Windows build',
               'the specification in /verif/spec states the property']
SUITES, CHECKS = {}, {}


def add(s, props):
    SUITES[s.name] = s
    for p in props:
        CHECKS.setdefault(p, []).append(s.name)


def q(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick


# ---------------------------------------------------------------- calls on an open session
add(Suite('session', 'SessionTrace',
          lambda seed, tier, prop: session.scenarios(seed, q(tier, 300, 6000), q(tier, 120, 1500)),
          session.to_trace,
          lambda tier: [dict(module='SessionMC', constants=dict(Tmo=2, NCalls=q(tier, 2, 3), MaxNow=2, MaxActive=2),
                             invariants=['OneOutstanding', 'PoisonedForGood', 'ErrorNamed'], properties=['NoReplyAfterFailure', 'CpFailKeeps', 'EveryCallEnds'], timeout=800)]),
    ['L01', 'L02', 'L03', 'L04', 'L05', 'L07', 'L08', 'L09'])

# ---------------------------------------------------------------- opening a session
OPEN = ['L02', 'L03', 'L04', 'L06', 'L07', 'L08', 'L09']
add(Suite('open', 'OpenTrace', lambda seed, tier, prop: opening.scenarios(seed, tier), opening.to_trace,
          lambda tier: [dict(module='OpenMC', constants=dict(Tmo=2, MaxNow=q(tier, 3, 5)), invariants=['StationRestored', 'OnlyOwn', 'Released', 'Named'], properties=['OpenEnds'], timeout=800)],
          post=opening.post), OPEN)
add(Suite('openfaults', 'OpenTrace', opening.faults, opening.to_trace), OPEN)

# ---------------------------------------------------------------- what a terminal shows
add(Suite('screen', 'TermTrace', lambda seed, tier, prop: term.screen(seed, q(tier, 120 if prop == 'X07' else 360, 8000), prop), term.to_trace), ['X01', 'X03', 'X04', 'X06', 'X08', 'T01', 'X07'])
SCRAPE = dict(invariants=['Sound', 'Once', 'Caught'], module='Scrape', timeout=800)
add(Suite('history', 'TermTrace', lambda seed, tier, prop: term.scenarios(seed, q(tier, 250 if prop == 'X02' else 90, 5000), only='asf'), term.to_trace,
          lambda tier: [dict(SCRAPE, constants=dict(N=7, H=h, MaxLine=8, Burst=2, Types=1, Recheck=True)) for h in (1, 2)] +
                       q(tier, [], [dict(SCRAPE, constants=dict(N=7, H=2, MaxLine=7, Burst=2, Types=2, Recheck=True)), dict(SCRAPE, constants=dict(N=8, H=2, MaxLine=9, Burst=3, Types=1, Recheck=True))])),
    ['X02', 'X01', 'X04'])

# ---------------------------------------------------------------- freezing and resizing the console
RESIZE = dict(module='Resize', invariants=['NoCallFails', 'RunsForChanges', 'Exact', 'Fits', 'Scrollback', 'Released'], properties=['Kept', 'Ends'], timeout=800)
add(Suite('console', 'ConTrace', lambda seed, tier, prop: console.scenarios(seed, q(tier, 400, 8000)), console.to_trace,
          lambda tier: [dict(RESIZE, constants=dict(MaxB=q(tier, 3, 4), MaxR=q(tier, 4, 5), MaxOps=q(tier, 2, 3), Largest=n, Line=7, Held=True)) for n in (3, 9)]), ['X05', 'X07'])

# ---------------------------------------------------------------- terminal input
INPUT = dict(module='InputMC', invariants=['Chunks', 'Kept', 'Swallowed', 'Balanced', 'Decided'], timeout=850)
add(Suite('input', 'InputTrace', inputs.scenarios, inputs.to_trace,
          lambda tier: [dict(INPUT, label='InputMC ' + what, constants=dict(Alphabet=set(a), Max=q(tier, n, m), VT=vt)) for what, a, n, m, vt in (
              ('keys and queries', [27, 91, 49, 50, 59, 82, 77], 4, 6, False), ('text', [27, 97, 195, 169, 226, 130, 172, 240, 159], 4, 5, False),
              ('mouse and keys, terminal input', [27, 91, 60, 48, 59, 77, 109, 79], 4, 5, True))]), ['I01', 'I02', 'I03', 'I04', 'I05', 'I06', 'I07', 'I08'])

# ---------------------------------------------------------------- the life of a session
LIFE = dict(module='LifeMC', invariants=['InOrder', 'NoneLost', 'Answers', 'Complete', 'Once'], timeout=850)
LIVE = ['Guards', 'Ended', 'Delivers', 'Answered', 'Reaches']
DESIGN = dict(Cap=1, Chunk=2, Err=False, FreshCheck=True, Pending=True, Conn=True)
add(Suite('life', 'LifeTrace', life.scenarios, life.to_trace,
          lambda tier: [dict(LIFE, label='LifeMC with liveness', properties=LIVE, constants=dict(DESIGN, N=1, Reqs=1, Auto=True, Ex=True)),
                        dict(LIFE, label='LifeMC', properties=['Guards'], constants=dict(DESIGN, N=2, Reqs=2, Auto=True, Ex=False))] +
                       q(tier, [], [dict(LIFE, label='LifeMC, two screens', properties=['Guards'], constants=dict(DESIGN, N=1, Reqs=1, Auto=True, Ex=True, Err=True)),
                                    dict(LIFE, label='LifeMC, no auto-shutdown, liveness', properties=LIVE, constants=dict(DESIGN, N=1, Reqs=2, Auto=False, Ex=False))]),
          post=life.post, group=life.group), ['C01', 'C02', 'P01', 'S01', 'S02'])

# ---------------------------------------------------------------- debug tracing
DEBUG = dict(module='DebugMC', invariants=['Same', 'NoLeak', 'Opens'], properties=['Ends'], timeout=800)
add(Suite('debug', 'DebugTrace', debug.scenarios, debug.to_trace,
          lambda tier: [dict(DEBUG, constants=dict(Threads={1, 2}, Calls=q(tier, 1, 2), Preserve=True, Closes=True))], post=debug.post, group=debug.group), ['D01'])

# ---------------------------------------------------------------- the Unix adapter
ADAPTER = dict(module='AdapterMC', invariants=['NeverOnItsOwn', 'Complete', 'Settled'], timeout=800)
RELAY = dict(ResetFirst=True, CompletedFirst=True, Armed=True, Joins=True)
add(Suite('adapter', 'AdapterTrace', adapter.scenarios, adapter.to_trace,
          lambda tier: [dict(ADAPTER, label='AdapterMC with liveness', properties=['Ends', 'Passes'], constants=dict(RELAY, N=q(tier, 1, 2), Sizes=q(tier, 1, 2))),
                        dict(ADAPTER, label='AdapterMC', constants=dict(RELAY, N=q(tier, 2, 3), Sizes=q(tier, 1, 2)))], need=('agent', 'lib', 'adapter')), ['U01', 'U02', 'U03'])
