import importlib

TABLE = {
    'N01': ('p_in', 'intake', 'IN_RULE'),
    'O01': ('p_obj', 'objective', 'OBJ_RULE'),
    'L01': ('p_lock', 'locks', 'LOCK_RULE'),
    'I01': ('p_idx', 'kinds', 'IDX_RULE'),
    'S01': ('p_rec', 'saved', 'RECORD_RULE'),
    'K02': ('p_act', 'activities', 'ACT_RULE'),
    'V04': ('p_just', 'just', 'JUST_RULE'),
    'D02': ('p_dual', 'dual', 'DUAL_RULE'),
    'B01': ('p_dir', 'implied', 'IMPLIED_RULE'),
    'S03': ('p_post', 'pure', 'PURE_RULE'),
    'V02': ('p_pub', 'publish', 'PUB_RULE'),
    'M01': ('p_heap', 'lifecycle', 'LIFE_RULE'),
    'M02': ('p_heap', 'oom', 'OOM_RULE'),
    'A01': ('p_heap', 'caller', 'CALLER_RULE'),
    'A03': ('p_api', 'quiet', 'QUIET_RULE'),
    'A02': ('p_api', 'settings', 'SETTINGS_RULE'),
    'R01': ('p_api', 'reentrant', 'REENT_RULE'),
    'T01': ('p_api', 'timelimit', 'TIME_RULE'),
    'V01': ('p_api', 'verdict', 'VERDICT_RULE'),
}


def get(pid):
    m, f, r = TABLE[pid]
    mod = importlib.import_module(m)
    return getattr(mod, f), getattr(mod, r)
