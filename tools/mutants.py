#!/usr/bin/env python3
"""Changes the specification on purpose and expects TLC to object: the models are not vacuous.
Not part of any check; run by hand: python3 tools/mutants.py [regex]"""
import os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# name, module, old, new, (main module, configuration, environment)
S3 = ("MCSearch", "MCSearch3.cfg", {})
SM = ("MCSearch", "MCSearchMultiQ.cfg", {})
H3 = ("MCHierarchy", "MCHierarchy.cfg", {})
HA = ("MCHierarchy", "MCHierarchyAny.cfg", {})
WI = ("MCWitness", "MCWitnessQ.cfg", {})
TH = ("MCPathTheory", "MCPathTheoryQ.cfg", {})
EP = ("Epoch", "Epoch.cfg", {})
NF = ("MCNormalForm", "MCNormalForm.cfg", {})
LR = ("MCLongRoutes", "MCLongRoutes.cfg", {})
CO = ("MCConcurrent", "MCConcurrent.cfg", {})
def G(m, d, a): return (m, m + ".cfg", {"HDEPTH": str(d), "HALPHA": a})

M = [
    ("contract-no-must", "MCSearch", "/\\ Must(e, v, Rest, WM) \\subseteq c", "/\\ TRUE", S3),
    ("contract-tie-not-needed", "Contraction", "Over(e, v, p, wm) < D[p[1]][p[2]]}", "Over(e, v, p, wm) + 1 < D[p[1]][p[2]]}", S3),
    ("contract-witness-over-contracted", "Contraction", "LET D == DistOver(e, rest, wm)", "LET D == DistOver([p \\in DOMAIN e |-> [w |-> Min2(e[p].w, 2), m |-> -1]], rest, wm)", S3),
    ("contract-heavier-replaces", "Contraction", "p[1] # p[2] /\\ Over(e, v, p, wm) < e[p].w}", "p[1] # p[2] /\\ Over(e, v, p, wm) < wm}", S3),
    ("search-stop-at-first-meeting", "Search", "ELSE IF x[1] > q.best THEN {drop}", "ELSE IF q.best < wm THEN {drop}", S3),
    ("search-stall-loose", "Search", "Against(h, i, v)[x].w, wm) < k", "Against(h, i, v)[x].w, wm) <= k + 1", S3),
    ("search-no-resettle", "Search", "!.done[i] = (@ \\cup {v}) \\ better", "!.done[i] = (@ \\cup {v}) \\cup better", S3),
    ("search-parent-kept", "Search", "IF y \\in better THEN v ELSE @[y]]", "IF y \\in better /\\ @[y] = y THEN v ELSE @[y]]", ("MCSearch", "MCSearch3W.cfg", {})),
    ("search-sum-wraps", "Search", "tot == Sat(k, q.d[3 - i][v], wm)", "tot == IF k + q.d[3 - i][v] > wm + 1 THEN 0 ELSE k + q.d[3 - i][v]", S3),
    ("search-first-entry-only", "Search", "IF x[1] = v THEN Min2(w, Min2(x[2], wm)) ELSE w, wm, S)]", "IF x[1] = v THEN Min2(x[2], wm) ELSE w, wm, S)]", ("MCSearch", "MCSearchMulti.cfg", {})),
    ("search-unpack-one-level", "Search", "Expand(h, a, e.m, h.dn[e.m][a]) \\o", "<<e.m>> \\o", ("MCSearchSample", "MCSearch4S.cfg", {})),
    ("hier-no-sum", "Hierarchy", "/\\ w = Sat(a[3], b[3], wm)", "/\\ TRUE", ("MCHierarchy", "MCHierarchyAny.cfg", {"NOTE": "survives: preserved distances imply it for useful edges"})),
    ("hier-too-strict", "Hierarchy", "d[s][t] = D", "d[s][t] = D", None),
    ("hier-preserved-strict", "Hierarchy", "d[outs[b][2]] <= Sat(ins[a][3], outs[b][3], wm)", "d[outs[b][2]] < Sat(ins[a][3], outs[b][3], wm)", H3),
    ("large-up-only", "Hierarchy", "RelaxFix(down, TLCEval(DistRow(up, s, wm)), wm) = d", "DistRow(up, s, wm) = d", H3),
    ("large-preserved-at-own-rank", "Hierarchy", "Remaining(h, all, k + 1), From(h, n, k + 1)", "Remaining(h, all, k + 2), From(h, n, k + 1)", H3),
    ("hier-ranks-loose", "Hierarchy", "Rank(h, a[1]) < Rank(h, f) /\\ Rank(h, a[1]) < Rank(h, t)", "Rank(h, a[1]) > Rank(h, f) /\\ Rank(h, a[1]) < Rank(h, t)", H3),
    ("witness-limit-as-answer", "Witness", "(\\E c \\in Nearest(ws.h) : c[1] > wl) THEN {<<ws, ws.d[t]>>}", "(\\E c \\in Nearest(ws.h) : c[1] > wl) THEN {<<ws, wl>>}", WI),
    ("witness-any-entry", "Witness", "Nearest(h) == {x \\in h : \\A y \\in h : x[1] <= y[1]}", "Nearest(h) == h", WI),
    ("witness-drop-on-limit", "Witness", "THEN {<<ws, ws.d[t]>>}\n", "THEN {<<[ws EXCEPT !.h = {}], ws.d[t]>>}\n", WI),
    ("witness-found-unlimited", "Witness", "(n.d[t] < ws.d[t] /\\ n.d[t] <= wl)", "n.d[t] < ws.d[t]", WI),
    ("theory-feasible-only", "PathTheory", "ELSE IsPath(adj, p[t], s, t, d[t], wm)", "ELSE TRUE", TH),
    ("theory-no-feasible", "PathTheory", "  /\\ Feasible(adj, s, d, wm)\n  /\\ \\A t", "  /\\ d[s] = 0\n  /\\ \\A t", TH),
    ("theory-tight-attained", "PathTheory", "/\\ {t \\in DOMAIN adj : t # s /\\ d[t] < wm} = ", "/\\ {} # {1} \\/ {} = ", TH),
    ("theory-first-from", "PathTheory", "FirstFrom(es, u + 1, 1, Len(es) + 1) - 1)", "FirstFrom(es, u + 1, 1, Len(es) + 1))", TH),
    ("epoch-no-reset", "Epoch", "THEN stamp' = [v \\in Nodes |-> 0] /\\ epoch' = 1", "THEN UNCHANGED stamp /\\ epoch' = 1", EP),
    ("epoch-restart-at-zero", "Epoch", "THEN stamp' = [v \\in Nodes |-> 0] /\\ epoch' = 1", "THEN stamp' = [v \\in Nodes |-> 0] /\\ epoch' = 0", EP),
    ("normal-keeps-last", "PathTheory", "LAMBDA i : i = 1 \\/ s[i][1] # s[i-1][1] \\/ s[i][2] # s[i-1][2])", "LAMBDA i : i = Len(s) \\/ s[i][1] # s[i+1][1] \\/ s[i][2] # s[i+1][2])", NF),
    ("normal-adjacent-only", "PathTheory", "LET s    == SortSeq(es, EdgeLess)", "LET s    == es", NF),
    ("long-ring-oneway", "LongRoutes", "Min2(AbsV(s - t), g.n - AbsV(s - t)) * g.w1", "AbsV(s - t) * g.w1", LR),
    ("long-run-crosses-row", "LongRoutes", "=> x[1] \\div g.c = RunLast(x) \\div g.c", "=> TRUE", LR),
    ("concurrent-shared-write", "MCConcurrent", "/\\ v' = v + 1\n  /\\ UNCHANGED <<e0, up, dn, ask, q>>", "/\\ v' = v + 1 /\\ up' = [up EXCEPT ![0] = <<>>]\n  /\\ UNCHANGED <<e0, dn, ask, q>>", CO),
    ("concurrent-shared-search", "MCConcurrent", "q' = [q EXCEPT ![th] = x]", "q' = [k \\in DOMAIN q |-> x]", CO),
    ("api-frozen-add", "FastPaths", "THEN r = Panic /\\ UNCHANGED ig\n     ELSE IF ~Accepted", "THEN r = Panic /\\ ig' = [ig EXCEPT ![i] = Added(@, f, t, w, bidir)]\n     ELSE IF ~Accepted", G("HistProtocol", 4, "large")),
    ("api-freeze-unsorted", "FastPaths", "Frozen(g) == [g EXCEPT !.es = NormalForm(@), !.fz = TRUE]", "Frozen(g) == [g EXCEPT !.fz = TRUE]", G("HistProtocol", 3, "large")),
    ("api-count-loops", "FastPaths", "ELSE IF ~Accepted(f, t, w)\n     THEN r = [k |-> \"ok\", n |-> 0] /\\ UNCHANGED ig", "ELSE IF ~Accepted(f, t, w)\n     THEN r = [k |-> \"ok\", n |-> 0] /\\ ig' = [ig EXCEPT ![i].n = Max2(@, Max2(f, t) + 1)]", G("HistProtocol", 3, "large")),
    ("api-dimacs-zero-based", "FastPaths", "Arc(g.es[j][1] + 1, g.es[j][2] + 1, g.es[j][3])]", "Arc(g.es[j][1], g.es[j][2] + 1, g.es[j][3])]", G("HistFiles", 2, "large")),
    ("api-header-after-arc", "FastPaths", "\\A a \\in as : h < a\n", "TRUE\n", None),
    ("api-junk-matters", "FastPaths", "ArcsOf(lines) == SelectSeq(lines, LAMBDA l : l.k = \"arc\")", "ArcsOf(lines) == IF \\E j \\in 1..Len(lines) : lines[j].k = \"cmt\" THEN <<>> ELSE SelectSeq(lines, LAMBDA l : l.k = \"arc\")", G("GenReaders", 3, "large")),
    ("api-any-order", "FastPaths", "ELSE IF ~IsPermutation(o, ig[i].n) THEN r \\in {Err, Panic} /\\ UNCHANGED <<pv, fg>>", "", G("HistOrders", 1, "small")),
    ("api-last-target-only", "FastPaths", "                      b, T),", "                      b, <<T[Len(T)]>>),", G("GenQueries", 2, "a")),
    ("api-none-when-max-entry", "FastPaths", "IN  IF best >= env.wm THEN r = None\n", "IN  IF best >= env.wm \\/ (\\E i \\in 1..Len(S) : S[i][2] >= env.wm) THEN r = None\n", G("GenQueries", 2, "a")),
    ("api-nothing-allowed", "FastPaths", "  /\\ IsPermutation(r.o, Val(g).n)\n", "  /\\ IsPermutation(r.o, Val(g).n) /\\ r.o[1] # 0\n", G("HistPrepared", 1, "large")),
]


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else "."
    base = tempfile.mkdtemp(prefix="mutants")
    missed = 0
    for name, mod, old, new, run in M:
        if run is None or not re.search(pat, name):
            continue
        main_mod, cfg, env = run
        d = os.path.join(base, name)
        shutil.copytree(os.path.join(ROOT, "spec"), d)
        p = os.path.join(d, mod + ".tla")
        t = open(p).read()
        if t.count(old) < 1:
            print("%-34s NOT APPLICABLE" % name)
            continue
        open(p, "w").write(t.replace(old, new, 1))
        t0 = time.time()
        r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
                            "-workers", "8", "-metadir", os.path.join(d, "meta"), "-config", cfg, main_mod + ".tla"],
                           cwd=d, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"Invariant (\w+) is violated|(Temporal properties|Action property [^\n]*)|property (\w+) is|Error: (.*)", r.stdout)
        ok = r.returncode != 0
        missed += not ok
        print("%-34s %-9s rc %d %5.1fs  %s" % (name, "reported" if ok else "SURVIVES", r.returncode, time.time() - t0, m.group(0) if m else ""), flush=True)
        shutil.rmtree(d)
    shutil.rmtree(base, ignore_errors=True)
    print("%d survive" % missed)


main()
