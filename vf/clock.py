"""
A still clock. Native modules must not be imported for the first time while the clock is
frozen (they keep C-level references to the stand-in types), so they're imported here.
"""

import datetime  # noqa
import importlib
import uuid  # noqa

for _name in ("pandas", "pyarrow", "pyarrow.parquet", "pyarrow.dataset", "pyarrow.compute", "numpy.polynomial", "zoneinfo",
              "orjson", "orso", "mabel", "mabel.data", "mabel.operators", "mabel.adapters.disk"):
    try:
        importlib.import_module(_name)
    except ImportError:
        pass

import freezegun  # noqa: E402

with freezegun.freeze_time("2020-01-01"):
    pass


def frozen(at, **kwargs):
    return freezegun.freeze_time(at, **kwargs)
