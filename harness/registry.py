"""Which recorded sessions and which models decide which property."""
from . import sessions, calcs, esops, tables, times, dfs, defs, runs, prims, forms, dasks

S = "FTSession"
E = "FTEntitiesTrace"
Y = "FTSynthesisTrace"


MORE = 1.8        # sessions of a quick run, relative to the numbers below


def P(name, gen, quick, thorough, pf=None, spec=S, **kw):
    d = dict(name=name, spec=spec, gen=gen, quick=int(quick * MORE), thorough=thorough, pf=pf or {})
    d.update(kw)
    return d


W_AGG = dict(dir=1.5, agg=6, tra=2, grp=0.3)
W_ROW = dict(dir=4, agg=1.5, tra=4, grp=2.5)
Q, T = 500, 20000

PROPS = {
    "C01": dict(parts=[
        P("times", sessions.session, Q, T, dict(p_time=0.95, win=0.0, numeric=0.1, steps=6)),
        P("dense", sessions.session, 200, T, dict(p_time=1.0, win=0.0, numeric=0.3, steps=3, rows=(3, 10), p_nat=0.2))]),
    "C02": dict(parts=[
        P("window", sessions.session, Q, T, dict(p_time=0.85, win=1.0, numeric=0.0, p_lti=0.5, steps=7)),
        P("edges", sessions.session, 200, T, dict(p_time=0.95, win=1.0, numeric=0.0, p_lti=0.3, steps=4, rows=(3, 9)))]),
    "C03": dict(parts=[
        P("second", sessions.session, Q, T, dict(p_sec=0.95, p_time=0.95, steps=6, p_where=0.4)),
        P("windowed", sessions.session, 150, T, dict(p_sec=0.95, p_time=0.95, steps=6, win=0.6, p_lti=0.3))]),
    "C04": dict(parts=[
        P("agg", sessions.session, Q, T, dict(w=W_AGG, p_where=0.05, p_prev=0.05)),
        P("paths", sessions.session, 250, T, dict(w=W_AGG, n_ents=(3, 4), p_extra_rel=0.7, p_where=0.1, p_prev=0.1, p_null_fk=0.25))]),
    "C05": dict(parts=[
        P("where", sessions.session, 400, T, dict(w=W_AGG, p_where=0.9, p_prev=0.2, n_nodes=(8, 18))),
        P("previous", sessions.session, 400, T, dict(w=W_AGG, p_where=0.3, p_prev=0.9, numeric=0.0, p_time=0.95))]),
    "C06": dict(parts=[
        P("rowwise", sessions.session, Q, T, dict(w=W_ROW)),
        P("groups", sessions.session, 250, T, dict(w=dict(dir=2, agg=1.5, tra=2, grp=6), rows=(3, 9), p_tricky=0.6)),
        P("whole", sessions.session, 200, T, dict(w=dict(dir=1.5, agg=6, tra=4, grp=0.3), p_whole=0.7, p_over=0.6, p_long=0.9, n_ents=(3, 4), p_where=0.1, p_prev=0.1))]),
    "C07": dict(parts=[
        P("requests", calcs.requests, 450, T, dict(win=0.2, p_unknown=0.25, reqs=(1, 9)))]),
    "C08": dict(parts=[
        P("approx", calcs.approx, 450, T, dict(w=dict(dir=5, agg=4, tra=1.5, grp=0.3), n_ents=(2, 4), win=0.25, p_lti=0.2, single=0.1,
                                               trans=None, nonow=True))]),
    "C09": dict(parts=[
        P("splits", calcs.splits, 220, 8000, dict(reqs=(3, 9), win=0.15, p_lti=0.1)),
        P("failures", runs.session_runs, 60, 4000, spec="FTRunTrace", p_fail=1.0, p_save=.3, p_callback=.5, crashes=0, p_cluster=.5)],
        models=[dict(module="FTRunMC", quick="FTRunMCF", thorough="FTRunMCF")]),
    "C10": dict(parts=[
        P("subsets", calcs.subsets, 400, T, dict(reqs=(2, 8), win=0.15, w=dict(dir=3, agg=4, tra=3, grp=1.2)))]),
    "C11": dict(parts=[
        P("untouched", calcs.untouched, 600, 12000, dict(p_sec=0.5, reqs=(2, 6), win=0.15)),
        P("second", calcs.untouched, 300, 8000, dict(p_sec=0.9, p_time=0.5, reqs=(2, 6), n_ents=(2, 3)))]),
    "C12": dict(parts=[
        P("operations", esops.session_ops, 400, T, spec=E)],
        models=[dict(module="FTEntitiesMC", quick="FTEntitiesMC", thorough="FTEntitiesMC3"),
                dict(module="FTEntitiesMC", quick="FTEntitiesMC1", thorough="FTEntitiesMC2")]),
    "C13": dict(parts=[
        P("normalize", esops.session_normalize, 400, T, spec=E)],
        models=[dict(module="FTEntitiesMC", quick="FTEntitiesMC1", thorough="FTEntitiesMC2")]),
    "C14": dict(parts=[
        P("last", esops.session_lti, 400, T, spec=E)],
        models=[dict(module="FTEntitiesMC", quick="FTEntitiesMC", thorough="FTEntitiesMC2")]),
    "C15": dict(parts=[
        P("combine", esops.session_combine, 300, T, spec=E),
        P("calculate", esops.session_combined_calc, 150, 8000)],
        models=[dict(module="FTEntitiesMC", quick="FTEntitiesMC", thorough="FTEntitiesMC2")]),
    "C16": dict(parts=[
        P("save", esops.session_save, 250, T, spec=E),
        P("calculate", esops.session_read_calc, 120, 8000)],
        models=[dict(module="FTEntitiesMC", quick="FTEntitiesMC", thorough="FTEntitiesMC2")]),
    "C26": dict(parts=[
        P("paths", esops.session_paths, 1500, T, spec=E)]),
    "C28": dict(parts=[
        P("frames", dasks.session_dask, 700, 15000),
        P("keys", dasks.session_dask, 200, 8000, dict(n_ents=(3, 4), p_extra_rel=.6, p_null_fk=.3, p_sec=.5, p_where=.5)),
        P("synthesis", dfs.session_synth, 250, 8000, dict(p_dist=1.0, p_default=.25, n_ents=[1, 2, 2, 3], n_same=1), spec=Y)]),
    "C30": dict(parts=[
        P("primitives", prims.session_prims, 1100, 40000, spec="FTPrimitivesTrace")]),
    "C33": dict(parts=[
        P("described", defs.session_described, 400, 12000, spec="FTDefsTrace"),
        P("deep", defs.session_described, 200, 6000, spec="FTDefsTrace", renames=0.1, steps=(10, 20), p_text=0.04, p_col=0.1)]),
    "C32": dict(parts=[
        P("expressions", sessions.session, 350, T, dict(w=dict(dir=1, agg=2, tra=8, grp=0.5), n_nodes=(8, 18), p_spell=1.0, p_alias=0.5, p_where=0.5)),
        P("alias", sessions.session, 300, T, dict(w=dict(dir=2, agg=6, tra=3, grp=1.5), p_spell=0.6, p_alias=1.0, p_where=0.4, p_prev=0.5)),
        P("made", sessions.session, 250, T, dict(w=dict(dir=2, agg=5, tra=5, grp=1), p_made=0.8, p_spell=0.5, p_alias=0.5))]),
    "C31": dict(parts=[
        P("interesting", esops.session_interesting, 800, T, spec=E),
        P("synthesis", dfs.session_synth, 350, T, dict(p_iv=1.0, p_iv_var=.6, p_whs=.95, n_same=0, n_ents=[2, 2, 3, 3], p_ign=.1,
                                                       n_aggs=[1, 2, 2, 3]), spec=Y),
        P("stacked", dfs.session_synth, 90, 4000, dict(left=600, cap=400, p_iv=1.0, p_iv_var=.8, p_whs=1.0, n_same=0, shapes=dfs.FORKED, depths=[4, 4, 5, -2], n_vars=(1, 2), p_ign=0, p_all_where=.8,
                                                        p_opts=0, p_own=.1, agg_pool=["count", "sum", "max", "mean"], trans_pool=["absolute", "negate", "is_null"],
                                                        n_aggs=[2], n_trs=[1], n_grps=[0], p_allowed=0, limits=[1, 1, 2]), spec=Y),
        P("pairs", dfs.session_synth, 150, 8000, dict(p_iv=1.0, p_iv_var=.8, p_whs=1.0, n_same=0, shapes=dfs.CHAINS, depths=[1, 2, 2], p_own=1.0, n_aggs=[0, 1], n_trs=[0],
                                                      n_grps=[0], p_ign=0, p_opts=0, p_allowed=0), spec=Y),
        P("counts", forms.session_forms, 200, 8000, dict(rows=(2, 9)), p_dfs=1.0, p_bad=0.0, p_iv=1.0, p_where=1.0, calcs=3)]),
    "C17": dict(parts=[
        P("saved", defs.session_saved, 700, T, spec="FTDefsTrace"),
        P("synthesised", defs.session_saved, 200, T, dict(p_dfs=1.0, p_iv=.8, p_whs=.9), spec="FTDefsTrace")]),
    "C18": dict(parts=[
        P("definitions", defs.session_defs, 500, T, spec="FTDefsTrace"),
        P("deep", defs.session_defs, 200, T, dict(steps=(15, 30), deep=8, renames=.3), spec="FTDefsTrace")]),
    "C19": dict(parts=[
        P("options", dfs.session_synth, 700, T, dict(p_opts=.65, p_ign=.35, p_allowed=.25, n_same=0), spec=Y),
        P("stacking", dfs.session_synth, 300, T, dict(p_own=.9, p_opts=.1, n_same=0, depths=[2, 3, 3, -1]), spec=Y),
        P("chains", dfs.session_synth, 300, T, dict(p_own=1.0, p_opts=0, n_same=0, depths=[2, 3], shapes=dfs.CHAINS, n_aggs=[0, 1], n_trs=[0, 0, 1], n_grps=[0], n_vars=(1, 2)), spec=Y)]),
    "C20": dict(parts=[
        P("complete", dfs.session_synth, 500, T, dict(n_same=3), spec=Y),
        P("seeds", dfs.session_synth, 250, T, dict(n_same=2, p_seeds=.9, p_whs=.7), spec=Y),
        P("defaults", dfs.session_synth, 150, 8000, dict(n_same=2, p_default=.7, n_ents=[1, 2, 2, 3]), spec=Y)]),
    "C21": dict(parts=[
        P("encode", tables.session_tables, 600, T, dict(p_unknown=0.1, reqs=(3, 10)), spec="FTTablesTrace", p_enc=0.85)]),
    "C22": dict(parts=[
        P("columns", tables.session_columns, 600, T, spec="FTTablesTrace"),
        P("features", tables.session_tables, 300, T, dict(p_unknown=0.1, reqs=(3, 10), n_want=(4, 9)), spec="FTTablesTrace", p_enc=0.25)]),
    "C23": dict(parts=[
        P("forms", forms.session_forms, 350, T),
        P("synthesis", forms.session_forms, 200, 8000, p_dfs=1.0, p_bad=.15)]),
    "C24": dict(parts=[
        P("saved", runs.session_runs, 150, 8000, spec="FTRunTrace", p_save=1.0, crashes=3),
        P("cluster", runs.session_runs, 60, 4000, spec="FTRunTrace", p_save=1.0, crashes=0, p_cluster=1.0)],
        models=[dict(module="FTRunMC", quick="FTRunMC", thorough="FTRunMCT"),
                dict(module="FTRunMC", quick="FTRunMCF", thorough="FTRunMCF")]),
    "C25": dict(parts=[
        P("spans", times.session_spans, 1000, T, spec="FTTimesTrace")],
        models=[dict(module="FTTimesMC", quick="FTTimesMC", thorough="FTTimesMCT")]),
    "C27": dict(parts=[
        P("reports", runs.session_runs, 250, 8000, spec="FTRunTrace", p_callback=1.0, p_save=.3, crashes=0),
        P("cluster", runs.session_runs, 60, 4000, spec="FTRunTrace", p_callback=1.0, p_save=.3, crashes=0, p_cluster=1.0)],
        models=[dict(module="FTRunMC", quick="FTRunMCN", thorough="FTRunMCT"),
                dict(module="FTRunMC", quick="FTRunMC", thorough="FTRunMCF")]),
    "C29": dict(parts=[
        P("cutoffs", times.session_cutoffs, 1000, T, spec="FTTimesTrace")]),
}
