from vt.gen import Prop
from contracts import flow as D

FNS = list(D.FL.values())
PROP = Prop("C03", {"df": D.TU}, FNS, classes=D.CLASSES, records=D.RECORDS, theory=D.theory(), uses=("Graph",),
            builtins=D.BUILTINS, drop_calls=D.DROP)
HARNESS = dict(src="C03.cpp", sources=["commons/verbose.cpp", "models/Dataflow.cpp", "models/NoC.cpp"])
THEORIES = ("prelude.mlw",)
