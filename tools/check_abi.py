"""Compares the enum values declared in shim/include/scip/scip.h with those of the installed PySCIPOpt."""
import re
from pathlib import Path

import pyscipopt.scip as S

txt = (Path(__file__).resolve().parent.parent / "shim/include/scip/scip.h").read_text()
val = {k: int(v) for k, v in re.findall(r"(SCIP_\w+) = (-?\d+)", txt)}
val.update({k: int(v) for k, v in re.findall(r"#define (SCIP_EVENTTYPE_\w+) UINT64_C\((\d+)\)", txt)})
bad = n = 0
for cls, pre in ((S.PY_SCIP_RESULT, "SCIP_"), (S.PY_SCIP_STATUS, "SCIP_STATUS_"), (S.PY_SCIP_STAGE, "SCIP_STAGE_"),
                 (S.PY_SCIP_EVENTTYPE, "SCIP_EVENTTYPE_"), (S.PY_SCIP_PROPTIMING, "SCIP_PROPTIMING_"),
                 (S.PY_SCIP_PRESOLTIMING, "SCIP_PRESOLTIMING_"), (S.PY_SCIP_LPSOLSTAT if hasattr(S, "PY_SCIP_LPSOLSTAT") else S.PY_SCIP_RESULT, "SCIP_LPSOLSTAT_")):
    for k in dir(cls):
        if k.startswith("_"):
            continue
        v = val.get(pre + k)
        if v is not None:
            n += 1
            if v != int(getattr(cls, k)):
                bad += 1
                print(pre + k, v, getattr(cls, k))
print(n, "compared,", bad, "differ")
raise SystemExit(bad > 0)
