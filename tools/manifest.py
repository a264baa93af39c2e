import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={'P01':'property-based testing against an exhaustive-recursion optimum','P02':'property-based testing against an exhaustive-recursion optimum','P03':'property-based testing against an exhaustive-recursion optimum',
'P04':'property-based testing: tiling invariant over generated inputs','P05':'property-based testing against the definition','P06':'property-based testing against the definition','P07':'property-based testing against the definition',
'P08':'property-based testing: additivity invariant','P09':'property-based testing: rescaling relation and idempotence','P10':'property-based testing: listed partitions against the optimum at both ends of their range',
'P11':'metamorphic property-based testing over pairs of parameters','P12':'property-based testing: differential comparison of four views','P13':'property-based testing against recomputation',
'P14':'property-based testing against sums over raw cells','P15':'property-based testing of random trees against a model','P16':'stateful model-based testing','P17':'differential property-based testing of two layouts',
'P18':'metamorphic property-based testing','P19':'stateful model-based testing against fresh objects','P20':'property-based testing with exact tie-rich tables against a lexicographic optimum',
'P21':'stateful model-based testing','P22':'stateful model-based testing and pairwise laws','P23':'sanitised property-based fuzzing of the whole chain','P24':'property-based testing of termination, range and length of the search','P25':'differential property-based testing of the embedded C++ code against library and reference','P26':'property-based testing against the generated description','P27':'stateful and concurrent property-based testing against sessions run alone, under ThreadSanitizer','P28':'sanitised stateful property-based testing of ownership, with a count of live heap blocks','P29':'metamorphic property-based testing over pairs of searches','P30':'stateful property-based testing of copies against snapshots and fresh objects','P31':'fault injection into allocations at generated points of generated histories, under sanitizers'}
checks=[]
for p in props:
    i=p['id']
    checks.append({'property':i,'quick_cmd':'python3 check.py '+i,'thorough_cmd':'VERIF_TIER=thorough python3 check.py '+i,'evidence_file':'evidence/%s.json'%i,
     'technique':T[i],'level':'exploration',
     'level_note':'Seeded random search with an independent oracle; every failure is reproduced three times in a fresh process and shrunk. The thorough tier runs 40 times the cases and a coverage-guided libFuzzer campaign on the same property. Trusts the oracle in harness/ (long double, rounding tolerances in harness/ref.h) and g++.'})
json.dump({'version':1,'setup_cmd':'python3 check.py setup','checks':checks,'not_applicable':[],
 'notes':'No hooks: the checks use the public API of the library only. Defects found are repaired in fix: commits, listed in known_findings.txt; none is left open.'},open('/verif/MANIFEST.json','w'),indent=1)
