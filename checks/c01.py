from .interchange import *
from .witness import SCALARS
import datetime


class C01(InterchangeCheck):
    ID = "C01"
    RULE = ("For each scalar type, every trace partition of json_to_object(type, data) over data of each JSON kind must end as the property allows: "
            "the value term returned equals the standard-library reading of the complete string (normal-form terms), every other kind ends in JsonTypeError, "
            "unreadable text ends in a Json*Error.")
    MIN_DECIDED = 50

    def run(self):
        self.setup()
        for name, tp in SCALARS.items():
            for k in (NoneType, bool, int, float, str):
                if tp is datetime.timedelta and k is str:
                    continue
                self.decode(f"json_to_object({name}, {k.__name__})", tp, inp("data", k))
            self.decode(f"json_to_object({name}, list)", tp, lambda: [inp("item", *SCALAR_JSON)])
            self.decode(f"json_to_object({name}, dict)", tp, lambda: {"key": inp("item", *SCALAR_JSON)})
