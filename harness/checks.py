"""What each check runs.  See run.py and DESIGN.md."""
import itertools
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(path):
        return []
    out = []
    for line in open(path):
        line = line.strip()
        if line.startswith("{"):
            out.append(json.loads(line))
    return out


CHECKS = {}


def sim(*systems, times=1, more=10):
    """whole simulations of random systems with these options"""
    return dict(driver="sim", module="SimTrace", args=dict(systems=list(systems), times=times),
                args_thorough=dict(times=times * more))


SIMULATION = dict(module="SimulationMC", quick="SimulationMC_quick.cfg", thorough="SimulationMC_thorough.cfg")
POOL = [dict(module="PoolMC", quick="PoolMC_quick.cfg", thorough="PoolMC_thorough.cfg"),
        dict(module="PoolMC", quick="PoolMC_hours.cfg", thorough="PoolMC_hours.cfg")]
DAY = dict(step=24)
HOUR = dict(step=1)
QUIET, CALM = dict(DAY, ij=1), dict(HOUR, ij=1)  # no yearly table

CHECKS["C01"] = dict(
    models=[SIMULATION],
    traces=[
        sim(dict(HOUR, na=1, years=2), dict(HOUR, na=2, years=1, weeks=True, tight=0.4)),
        sim(dict(DAY, years=4, weeks=True), dict(DAY, years=1), dict(DAY, years=2, freq=24)),
        sim(dict(DAY, na=1, years=30, cvt=0.5), dict(DAY, na=1, years=12, cvt=0.1), times=2),
        sim(dict(DAY, na=2, years=9, cvt=0.3, interval=4, resume=True)),
    ],
)

CHECKS["C02"] = dict(
    models=[dict(module="EventArena", quick="EventArena_quick.cfg", thorough="EventArena_thorough.cfg")],
    traces=[
        dict(driver="arena", module="ArenaTrace",
             args=dict(histories=20, length=60, program=400),
             args_thorough=dict(histories=300, length=200, program=5000),
             behaviours=dict(module="ArenaMBT", cfg="ArenaMBT.cfg", num=60, num_thorough=1500, depth=40, max=1500, max_thorough=20000)),
        sim(dict(DAY, na=1, years=3, weeks=True), dict(HOUR, na=1, tight=0.4)),
    ],
)

CHECKS["C03"] = dict(
    models=[SIMULATION],
    traces=[
        sim(dict(HOUR, na=1, weeks=True, tight=0.5), dict(HOUR, na=1, weeks=False, tight=0.5)),
        sim(dict(DAY, weeks=True, years=3), dict(DAY, weeks=False, years=2), dict(DAY, weeks=True)),
        sim(dict(DAY, weeks=True, na=1, years=2), times=4), sim(dict(DAY, weeks=True, na=2, idle=True)),
        sim(dict(DAY, weeks=True, na=2, years=3, interval=1, resume=True)),
        sim(dict(DAY, weeks=True, na=1, nu=3, years=26, cvt=0.0001)), sim(dict(DAY, weeks=True, na=1, nu=140)),
    ],
)

CHECKS["C04"] = dict(
    models=[SIMULATION],
    traces=[
        sim(dict(HOUR, na=1, tight=0.5), dict(HOUR, na=2, tight=0.4)),
        sim(dict(DAY, na=3, years=2), dict(DAY, na=2, years=4), dict(DAY, na=4)),
        sim(dict(DAY, na=1, years=3), times=5),
        sim(dict(DAY, na=2, years=3, interval=1, resume=True)),
        sim(dict(DAY, na=1, nu=30, busy=True), dict(DAY, na=2, nu=12, busy=True)), sim(dict(DAY, na=1, nu=140, busy=True, years=2)),
        sim(dict(DAY, na=1, years=7, early=True, tight=0.4, cvt=0.0001)),
    ],
)

CHECKS["C05"] = dict(
    models=[dict(module="SamplingMC", quick="SamplingMC_quick.cfg", thorough="SamplingMC_thorough.cfg")],
    traces=[
        dict(driver="samplers", module="SamplingTrace", args=dict(draws=600), args_thorough=dict(draws=8000)),
        sim(dict(HOUR, na=1, tight=0.5, freq=1), dict(HOUR, na=2, tight=0.4, freq=24)),
        sim(dict(DAY, na=3, freq=24), dict(DAY, na=4, freq=1), dict(DAY, na=2, years=3)),
        sim(dict(DAY, na=2), times=4), sim(dict(DAY, na=5, mesh=True, nu=6, tight=0.3, near=True), dict(DAY, na=2, near=True, freq=1), times=4),
        sim(dict(DAY, na=2, idle=True, years=2), dict(DAY, na=1, idle=True)),
        sim(dict(DAY, na=2, years=3, interval=1, resume=True), dict(DAY, na=1, years=2, again=True)),
        sim(dict(DAY, na=1, seed=2147483647), dict(DAY, na=3, seed=1), dict(DAY, na=2, years=2, again=True)),
        sim(dict(DAY, na=6, mesh=True, tight=0.5), dict(DAY, na=1, nu=40, years=2), dict(DAY, na=7, mesh=True, nu=1, tight=0.5)),
        sim(dict(DAY, na=1, nu=270)), sim(dict(DAY, na=11, nu=2, tight=0.4)),
    ],
)

CHECKS["C06"] = dict(
    models=POOL,
    traces=[
        sim(dict(HOUR, na=2, tight=0.4, joint=True), dict(DAY, na=4, joint=True, tight=0.9)),
        sim(dict(DAY, na=3, joint=True, years=2, weeks=True, tight=0.8), times=2),
        sim(dict(DAY, na=4, joint=True, freq=24), times=3),
        sim(dict(DAY, na=3, joint=True, partial=True), dict(DAY, na=2, joint=True), times=2),
        sim(dict(DAY, na=3, joint=True, odd=True, nu=5, tight=0.8), dict(DAY, na=6, odd=True, tight=0.6)), sim(dict(DAY, na=12, nu=12, joint=True, tight=0.4)), sim(dict(DAY, na=2, nu=130, joint=True)),
        dict(driver="samplers", module="SamplingTrace", args=dict(sums=2000), args_thorough=dict(sums=30000)),
    ],
)

CHECKS["C07"] = dict(
    models=POOL,
    traces=[
        sim(dict(HOUR, na=2, tight=0.4, contracts=3, freq=24), dict(DAY, na=4, contracts=4, tight=0.9)),
        sim(dict(DAY, na=3, contracts=3, years=2, tight=1.0), times=2),
        sim(dict(DAY, na=4, contracts=6, freq=24, tight=0.8), times=3),
        sim(dict(DAY, na=2, contracts=2, tight=1.0), dict(DAY, na=3, contracts=8), times=3),
        sim(dict(DAY, na=6, contracts=45, tight=0.6), dict(DAY, na=5, contracts=30, tight=0.6), dict(HOUR, na=2, tight=0.3, contracts=3, ends=True)), sim(dict(DAY, na=12, nu=2, contracts=20, tight=0.4)),
    ],
)

CHECKS["C08"] = dict(
    models=POOL,
    traces=[
        sim(dict(HOUR, na=2, tight=0.6), dict(DAY, na=3, tight=0.8)),
        sim(dict(DAY, na=3, tight=0.9, fu=True, nls=1), dict(DAY, na=3, tight=0.8, fu=True, nls=0), times=2),
        sim(dict(DAY, na=2, tight=1.0, fu=False, joint=True), times=4),
        sim(dict(DAY, na=4, tight=0.7, contracts=4, fu=True), times=2),
        sim(dict(DAY, na=6, nu=2, mesh=True, weak=1.0, tight=0.4, fu=True, joint=False, contracts=0), times=2),
        sim(dict(DAY, na=2, tight=0.8, fu=True), dict(DAY, na=1, tight=0.8, fu=True), times=3), sim(dict(DAY, na=11, nu=2, tight=0.5)),
    ],
)


def studies(networks, hours, sims=(), most=60):
    """transmission studies: direct calls on random networks, and those of whole simulations"""
    return dict(driver="transport", module="TransportTrace", certify="study",
                args=dict(networks=networks, hours=hours, sims=list(sims), most=most),
                args_thorough=dict(networks=networks * 12, most=most * 6))


TRANSPORT = dict(module="TransportMC", quick="TransportMC_quick.cfg", thorough="TransportMC_thorough.cfg")
BIG = [dict(DAY, na=4, tight=0.9, fu=True, nls=1), dict(DAY, na=4, tight=0.8, contracts=4, joint=True, nls=0)]
TRADE = [dict(DAY, na=3, tight=0.9, contracts=4, joint=True, nls=1, freq=24)]
CHECKS["C09"] = dict(models=[TRANSPORT], traces=[studies(120, 5), studies(25, 24, BIG), studies(100, 5, TRADE), studies(100, 5)])
CHECKS["C10"] = dict(models=[TRANSPORT], traces=[studies(120, 5), studies(25, 24, BIG), studies(100, 5, TRADE), studies(100, 5)])
CHECKS["C11"] = dict(models=[TRANSPORT], traces=[studies(120, 5), studies(25, 24, BIG), studies(100, 5, TRADE), studies(100, 5)])

CHECKS["C12"] = dict(
    models=POOL,
    traces=[
        sim(dict(HOUR, na=2, tight=0.8), dict(HOUR, na=1, tight=0.9)),
        sim(dict(DAY, na=3, tight=0.9, fu=True), dict(DAY, na=2, tight=1.0, fu=False), times=3),
        sim(dict(DAY, na=1, tight=1.0, years=2), times=5),
        sim(dict(DAY, na=4, tight=0.8, fu=True), dict(HOUR, na=1, fu=True, tight=0.8)),
        sim(dict(HOUR, na=2, tight=0.7, fu=True, freq=24)), sim(dict(DAY, na=12, nu=2, tight=0.5)),
        dict(driver="statistics", module="StatisticsTrace", args=dict(hours=4000), args_thorough=dict(hours=60000)),
    ],
)

CHECKS["C13"] = dict(
    models=[SIMULATION],
    traces=[
        sim(dict(HOUR, na=2, tight=0.7, years=2), dict(DAY, na=1, tight=0.9, years=5, cvt=0.025)),
        sim(dict(DAY, na=3, tight=0.8, fu=True, years=3), dict(DAY, na=2, tight=0.8, fu=False, years=4), times=2),
        sim(dict(DAY, na=1, tight=0.8, years=12, cvt=0.025), times=4), sim(dict(DAY, na=12, nu=2, tight=0.5)),
        sim(dict(DAY, na=2, tight=0.7, years=5, interval=2, resume=True)),
        sim(dict(DAY, na=4, nu=2, tight=[0.4, 1.1], years=5, cvt=0), dict(DAY, na=4, nu=2, tight=[0.4, 1.1], years=3, cvt=0)),
        # losses that add up to about a limit of the classes of the report
        sim(*[dict(DAY, na=1, bins=True, years=1)] * 5, times=4),
        sim(dict(CALM, na=1, bins=True, years=1), dict(CALM, na=2, bins=True, contracts=0, years=1), times=2),
    ],
)

CHECKS["C14"] = dict(
    models=[SIMULATION, dict(module="ConvergenceMC", quick="ConvergenceMC_quick.cfg", thorough="ConvergenceMC_thorough.cfg")],
    traces=[
        dict(driver="converge", module="ConvergenceTrace", args=dict(histories=400), args_thorough=dict(histories=6000)),
        sim(dict(DAY, na=1, years=30, cvt=0.1), times=8),
        sim(dict(DAY, na=1, years=30, cvt=0.5), times=8),
        sim(dict(DAY, na=2, years=12, cvt=0.3, tight=0.6), dict(DAY, na=2, years=9, cvt=0.5, tight=0.5), times=2),
        sim(dict(DAY, na=1, years=60, cvt=0), dict(DAY, na=1, years=20, cvt=0.01, tight=0.9), dict(DAY, na=1, years=20, cvt=0.015, tight=1.0), times=3),
        sim(dict(DAY, na=1, years=14, cvt=0.3, tight=0.4), times=6),
        sim(dict(DAY, na=2, years=9, cvt=0.2, interval=3, resume=True)),
        *[sim(*[dict(HOUR, na=1, years=1, tight=0.5, fu=True, kv=(a, *kv)) for kv in itertools.product((1, 2), repeat=3)]) for a in (1, 2)],
        *[sim(*[dict(DAY, na=2, nu=2, years=10, settle=True, tight=[0.5, 0.7], fu=True, kv=(a, b, *kv)) for kv in itertools.product((1, 2), repeat=2)])
          for a, b in itertools.product((1, 2), repeat=2)],
        sim(dict(DAY, na=1, years=9, cvt=0.0005, tight=0.95), dict(DAY, na=1, years=12, cvt=0.0003, tight=1.0), dict(DAY, na=1, years=10, cvt=0.9, tight=0.5), times=3),
    ],
)

CHECKS["C15"] = dict(
    models=[SIMULATION],
    traces=[
        sim(dict(DAY, na=2, years=4, interval=1, resume=True)),
        sim(dict(DAY, na=3, years=3, interval=2, resume=True, joint=True, contracts=3)),
        sim(dict(DAY, na=1, years=9, interval=3, resume=True, cvt=0.3)),
        sim(dict(DAY, na=1, years=7, interval=5, resume=True, cvt=0.1), dict(DAY, na=1, years=3, interval=1, crashes=8)),
        sim(dict(HOUR, na=1, years=2, interval=1, resume=True, freq=24, tight=0.5)),
        sim(dict(DAY, na=2, years=3, interval=1, resume=True, freq=24, fu=True)),
        sim(dict(DAY, na=7, nu=1, mesh=True, tight=0.6, years=2, interval=1, resume=True), dict(DAY, na=2, years=7, interval=1, resume=True, fu=True, kvt=1, tight=0.8, cvt=0.3)),
    ],
)

CHECKS["C16"] = dict(
    models=[dict(module="ReportMC", quick="ReportMC_quick.cfg", thorough="ReportMC_thorough.cfg")],
    traces=[
        sim(dict(HOUR, na=2, tight=0.6), dict(HOUR, na=1, fu=True, tight=0.7)),
        sim(dict(DAY, na=3, tight=0.8, fu=True, years=2), dict(DAY, na=2, tight=0.8, fu=False, years=3), times=2),
        sim(dict(DAY, na=1, tight=0.8, years=12), times=4),
        sim(dict(HOUR, na=1, fu=True, years=2, tight=0.6), dict(HOUR, na=3, tight=0.5, fu=True)),
        sim(dict(DAY, na=4, tight=0.7, fu=False, years=2, contracts=3), dict(DAY, na=2, fu=True, years=3)),
        sim(dict(HOUR, na=2, tight=0.8, fu=False, freq=24)), sim(dict(DAY, na=12, nu=2, tight=0.5)),
        # systems with few losses or none, so that some ratios have nothing to divide by
        sim(dict(QUIET, na=2, tight=0.2, fu=True), dict(QUIET, na=2, tight=0.3, fu=True, years=2), dict(QUIET, na=1, tight=0.1, fu=False), times=5),
        sim(dict(CALM, na=2, brink=True, contracts=0), dict(QUIET, na=3, brink=True, contracts=0), times=2),
        sim(dict(CALM, na=1, brink=True), dict(CALM, na=3, brink=True, contracts=0)),
        sim(dict(CALM, na=2, tight=0.05, fu=False), dict(CALM, na=2, tight=0.2, fu=True)),
        sim(dict(CALM, na=1, tight=0.25, fu=True, years=3, freq=24), dict(CALM, na=1, tight=0.2, fu=True, years=2, freq=24)),
    ],
)

def folders(*opts, times=2, direct=0, tables=0, more=12):
    """random input folders through the whole of the reading, up to the start of the simulation"""
    return dict(driver="inputs", module="InputsTrace", args=dict(folders=list(opts), times=times, direct=direct, tables=tables),
                args_thorough=dict(times=times * more, direct=direct * more, tables=tables * more))


INPUTS = dict(module="InputsMC", quick="InputsMC_quick.cfg", thorough="InputsMC_thorough.cfg")
ANY = [dict(), dict(), dict(), dict()]
CHECKS["C17"] = dict(
    models=[INPUTS],
    traces=[
        folders(*ANY, dict(derates=1, na=3), times=4),
        folders(*ANY, dict(na=10, nu=30), dict(auto=0.5), times=4),
        folders(*ANY, dict(edge=1), dict(contracts=12), times=4),
        folders(*ANY, dict(contracts=0), dict(nu=1, na=1), times=4), folders(dict(na=18, nu=150), dict(na=2, nu=270), times=1),
        folders(dict(fus=[0.1, 0.3, 0.7]), dict(fus=[0, 0, 0.5], na=4), dict(fus=[20, 38, 0]), dict(fus=[1, 0]), times=3),
    ],
)
CHECKS["C18"] = dict(
    models=[INPUTS],
    traces=[
        folders(dict(exact=True), dict(exact=False), direct=8),
        folders(dict(exact=True, contracts=6), dict(exact=False, contracts=6), dict(na=11), direct=8, times=1),
        folders(dict(exact=True, na=2), dict(na=10, exact=True), direct=8, times=1),
        folders(dict(exact=False), dict(exact=True, contracts=3), direct=8),
    ],
)
CHECKS["C19"] = dict(
    models=[INPUTS],
    traces=[
        folders(dict(nu=12, na=1), dict(nu=20, na=3), dict(auto=0.5)),
        folders(dict(nu=1, na=1), dict(nu=40, na=5), dict(auto=0.9, nu=12)),
        folders(dict(nu=8, na=2), dict(nu=200, na=2), times=1),
    ],
)
CHECKS["C20"] = dict(
    models=[dict(module="OutageTableMC", quick="OutageTableMC_quick.cfg", thorough="OutageTableMC_thorough.cfg")],
    traces=[folders(tables=150, times=1), folders(tables=150, times=1), folders(tables=150, times=1)],
)
CHECKS["C21"] = dict(
    models=[INPUTS],
    traces=[
        folders(dict(contracts=12, nu=12), dict(contracts=4, nu=8)),
        folders(dict(contracts=12, nu=5, exact=True), dict(contracts=0, nu=30)),
        folders(dict(contracts=6, nu=12, exact=False), dict(na=1, nu=6)),
        folders(dict(contracts=9, nu=12, na=5), dict(contracts=9, nu=12, na=2)),
    ],
)

CHECKS["C22"] = dict(
    models=[dict(module="RepeatMC", quick="RepeatMC_quick.cfg", thorough="RepeatMC_thorough.cfg")],
    traces=[
        sim(dict(DAY, na=2, years=2, again=True)),
        sim(dict(DAY, na=3, again=True, joint=True, contracts=3)),
        sim(dict(DAY, na=4, again=True, fu=True, tight=0.9)),
        sim(dict(HOUR, na=1, again=True, tight=0.7)),
        sim(dict(DAY, na=2, again=True, nls=1, tight=0.9), dict(DAY, na=1, years=7, again=True, cvt=0.5)),
    ],
)

CHECKS["C23"] = dict(
    models=[dict(module="NetworkMC", quick="NetworkMC_quick.cfg", thorough="NetworkMC_thorough.cfg")],
    traces=[
        dict(driver="network", module="NetworkTrace", args={},
             behaviours=dict(module="NetworkMBT", cfg="NetworkMBT.cfg", num=120, num_thorough=3000, depth=16, max=400, max_thorough=6000)),
        dict(driver="network", module="NetworkTrace", args=dict(networks=60, hours=6), args_thorough=dict(networks=1500)),
        dict(driver="network", module="NetworkTrace", args=dict(networks=10, hours=40, matrices=150), args_thorough=dict(networks=100, matrices=4000)),
        studies(150, 6),
    ],
)

NOT_APPLICABLE = {}
