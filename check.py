#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

AREAS = {'R': 'rules_roadmap', 'R04': 'rules_query', 'R05': 'rules_query', 'R06': 'rules_query',
         'R07': 'rules_state', 'R08': 'rules_state', 'R09': 'rules_state', 'R10': 'rules_query', 'R11': 'rules_query', 'R12': 'rules_state', 'R13': 'rules_state',
         'A': 'rules_ann', 'B': 'rules_bound', 'E': 'rules_env', 'X': 'rules_trials', 'X04': 'rules_exps', 'X06': 'rules_exps', 'T': 'rules_tamp', 'T05': 'rules_shapes', 'T04': 'rules_cli', 'T06': 'rules_plans', 'X08': 'rules_measure', 'T08': 'rules_scene', 'T09': 'rules_place', 'T11': 'rules_carry', 'E10': 'rules_outline', 'E11': 'rules_walk', 'T10': 'rules_domain', 'T07': 'rules_shapes'}


def main():
    import threading
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    box = {}

    def go():
        from nmpsa.report import Report
        from nmpsa.loader import AnchorMissing
        rep = Report(pid, tier)
        try:
            m = importlib.import_module('nmpsa.' + AREAS.get(pid, AREAS[pid[0]]))
            getattr(m, pid)(rep)
            from nmpsa.precision import precise
            precise(rep, pid)
            box['rc'] = rep.finish()
        except AnchorMissing as e:
            # nothing can be shown about a construct that is not there under its name: undecided, not an alarm
            rep.ob('anchor', str(e), None, str(e), 'the construct the property is anchored in was not found')
            box['rc'] = rep.finish()
        except (Exception, RecursionError) as e:
            if os.environ.get('NMP_DEBUG'):
                raise
            rep.ob('analysis', type(e).__name__, None, '', 'analysis gave up: %s' % e)
            box['rc'] = rep.finish()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(box.get('rc', 4))


if __name__ == '__main__':
    main()
