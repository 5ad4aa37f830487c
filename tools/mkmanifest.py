#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("bounded exhaustive enumeration (families x sizes x request orders) on the real code, certified orthogonal-polynomial zeros as oracle","every family and every size within the bound is visited; oracle is independent extended-precision arithmetic; sizes beyond the bound rest on the algorithm being uniform in n"),
"C02":("bounded exhaustive enumeration of collocation methods on the real code against exact polynomial integration","90-digit arithmetic oracle for moderate n, orthogonal-basis exactness for large n; intervals are a fixed menu"),
"C03":("bounded exhaustive enumeration of all quadrature formulas against exact moments","finite problem decided completely within the size bound; order decided by exact moments of the code's own nodes and weights"),
"C04":("complete enumeration of tables x rooted trees (finite state space)","all tables and all trees up to the declared order plus one: complete for the library; A-stability on a grid of the imaginary axis plus pole positions"),
"C05":("complete enumeration of IMEX pairs x two-coloured rooted trees","complete for the pairs of the library; tolerance 1e-12"),
"C06":("exhaustive enumeration of schemes x paddings and of all construction orders (explicit-state search over instance histories)","histories up to the stated depth; step equality on a menu of right-hand sides plus the algebraic structure"),
"C07":("exhaustive enumeration of the configuration product on the real code","all names x parameter menu x all option combinations"),
"C08":("explicit-state search over request histories of the real generator objects (state canonicalisation, fresh-object oracle)","state spaces close for every root; alphabet of requests is finite"),
"C09":("exhaustive enumeration of type lists x sweeps x forms on the real code, single-sweep oracle","list lengths up to 3 over representative types, all single names"),
"C10":("exhaustive enumeration of argument splits (call styles) on the real code","all splits of all parameters for every approximation over parameter menus"),
"C11":("exhaustive enumeration of node sets on the real code, exact rational scheme oracle","all subsets of a grid; other node values rest on the formulas being uniform"),
"C12":("exhaustive enumeration of small matrices and all library matrices, exact rational factorization oracle","all matrices over a small alphabet up to size 3"),
"C13":("exhaustive enumeration of approximations x families x sizes x sweep indices","all sizes within the bound; published tables pinned by an independent copy"),
"C14":("exhaustive enumeration of ordered point sets on the real code, exact Lagrange polynomials as oracle","all ordered point sets over a grid; large sets only for Chebyshev points"),
"C15":("exhaustive enumeration of point sequences with repetitions, exact distinct-point oracle","all sequences up to the length bound"),
"C16":("exhaustive enumeration of grids x orders x sequences of output points (stencil-reuse states), exact stencil oracle","all short sequences so every stencil-reuse transition is visited"),
"C17":("exhaustive enumeration of SDC parameter products on the real code against an independent reference iteration","all combinations of the stated alphabets"),
"C18":("exhaustive enumeration of generators x parameters against the stability function","all registered generators, all paddings, parameter menus"),
"C19":("complete enumeration of configurations, true order decided by exact power series of the amplification factor","configuration space complete within n<=8 and 8 sweeps (some larger, see bounds); 97 over-claims recorded as known findings"),
"C20":("explicit-state search over registration histories of the real registries","all histories up to the stated length over a finite alphabet of class definitions; all pairs of import statements from processes that never imported the library"),
"C21":("explicit-state search over public-call histories with complete library state canonicalisation; closure at one state gives all histories over the alphabet","if the library state is unchanged by each call then every history is covered; otherwise sequences up to the depth"),
"C22":("stateless model checking of the real code under a controlled thread scheduler (preemption-bounded exhaustive schedules)","all schedules up to the preemption bound at the stated granularity; library code (numpy, scipy) is atomic; GIL semantics"),
"C24":("explicit-state search over histories of requests and copies of the real objects (state canonicalisation, fresh-object oracle)","state spaces close for every root; two objects at a time; finite alphabet of requests and ways to copy"),
"C26":("exhaustive enumeration of method, approximation and sweep-history combinations run by the real solver against the closed form of the error propagation","complete within n<=4 (plus 6 and 9) and the stated coefficients and numbers of sweeps; diverging combinations only until they exceed double precision"),
"C25":("exhaustive enumeration of the storage forms of all arguments of every public call, executed on the real code against the double-precision call","all pairs of forms (thorough: triples) over a fixed list of calls and values"),
"C23":("exhaustive enumeration of small inputs against exact rational arithmetic","all inputs over the stated alphabets"),
}
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m=dict(version=1,setup_cmd="./check --setup",checks=[dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",evidence_file=f"evidence/{i}.json",
    technique=T[i][0],level="model_checking",level_note=T[i][1]) for i in ids],not_applicable=[],
    notes="Pure Python code under test: the checks import qmat from /repo's working tree, nothing to build. Known findings in known_findings.txt. ./check <id> --replay FILE re-runs the root of a violation.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
print(len(m["checks"]))
