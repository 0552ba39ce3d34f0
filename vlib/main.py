import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import harness, checks_lookup, checks_suggest, checks_load, checks_total, checks_process, checks_meta, checks_work, checks_real, checks_copy   # noqa: E402

MODULES = [checks_lookup, checks_suggest, checks_load, checks_total, checks_process, checks_meta, checks_work, checks_real, checks_copy]


def checks():
    out = {}
    for m in MODULES:
        for x in vars(m).values():
            if isinstance(x, type) and issubclass(x, harness.Check) and x.id:
                out[x.id] = x
    return out


if __name__ == '__main__':
    sys.exit(harness.main(checks()[sys.argv[1]], sys.argv[2:]))
