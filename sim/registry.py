import importlib

MODULES = ('sc_query', 'sc_net', 'sc_rates', 'sc_wallet', 'sc_pay', 'sc_sign', 'sc_keygen', 'sc_threads', 'sc_store', 'sc_trust', 'sc_spend', 'sc_history', 'sc_interrupt')

_map = {}


def scenario(pid):
    if not _map:
        for m in MODULES:
            _map.update(importlib.import_module('sim.' + m).SCENARIOS)
    return _map[pid]


def all_ids():
    if not _map:
        scenario_ids = None
        try:
            scenario('')
        except KeyError:
            pass
    return sorted(_map)
