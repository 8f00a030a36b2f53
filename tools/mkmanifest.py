#!/usr/bin/env python3
# Writes MANIFEST.json: the claimed properties and the level of each check.
import json
T="contract-based deductive verification: weakest-precondition style obligations generated from /repo's Go SSA by govc, discharged by Z3/cvc5"
PROOF="Every obligation generated from the current source is discharged for all inputs; the same contracts are also executed on the compiled code to find failing inputs. Assumes the listed contracts of library functions, mathematical integers, partial correctness (see evidence)."
MIXED="Part of the contracts is discharged for all inputs; the contracts named 'bounded' in the evidence are only executed on generated inputs (stand-in, not proved). "+"Assumes the listed contracts of library functions, mathematical integers, partial correctness."
BOUND="Contracts are executed on the compiled code with generated inputs (bounded stand-in, labelled as such in the evidence): not proved."
LEVELS={l.split()[0]:l.split()[1] for l in '''
C01 proof
C02 proof
C03 proof
C04 mixed
C05 proof
C06 bounded
C07 proof
C08 mixed
C09 mixed
C10 mixed
C11 mixed
C12 proof
C13 mixed
C14 mixed
C15 mixed
C16 mixed
C17 mixed
C18 mixed
C19 mixed
C20 mixed
C21 mixed
'''.strip().split('\n')}
NA={
'C22':"The parser's scanner module (github.com/boynton/... scanner) is not available offline, so parser.go and unparser.go cannot be compiled, loaded or executed here; no contract over them can be generated or checked.",
'C23':"The smithy package imports github.com/boynton/smithy, which is not available offline; the package cannot be compiled or loaded, so no contract over it can be checked.",
}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for p in props:
    if p in LEVELS:
        k=LEVELS[p]
        checks.append(dict(property=p,quick_cmd='./check.sh %s quick'%p,thorough_cmd='./check.sh %s thorough'%p,technique=T,
          level={'proof':'proof','mixed':'other','bounded':'exploration'}[k],level_note={'proof':PROOF,'mixed':MIXED,'bounded':BOUND}[k]))
    else:
        na.append(dict(property=p,reason=NA.get(p,'not built yet')))
json.dump(dict(version=1,setup_cmd='(cd govc && HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o /dev/null .)',checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
