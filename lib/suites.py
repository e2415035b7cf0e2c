"""Which recorded or generated behaviours decide which property.

A suite is a generator of seeded histories of public calls together with the specification module
that says what each call must report. CHECKS maps a property to the (suite, profile, histories per
shard in the quick tier, in the thorough tier, calls per history) it is decided by."""
import gen_config, gen_mold, gen_small, gen_doc, gen_store, gen_arc, enc

SUITES = {
    'config': dict(scenario=gen_config.scenario, encode=enc.encode, module='ConfigTrace'),
    'mold': dict(scenario=gen_mold.scenario, encode=enc.encode, module='MoldTrace'),
    'doc': dict(scenario=gen_doc.scenario, encode=gen_doc.encode, module='DocTrace'),
    'store': dict(scenario=gen_store.scenario, encode=gen_store.encode, module='StoreTrace'),
    'archive': dict(scenario=gen_arc.scenario, encode=gen_arc.encode, module='ArchiveTrace'),
    'version': dict(scenario=gen_small.versions, encode=gen_small.enc_versions, module='VersionTrace'),
    'error': dict(scenario=gen_small.errors, encode=gen_small.enc_plain, module='ErrorTrace'),
}
CHECKS = {
    'C01': [('config', 'gen', 300, 6000, 50), ('mold', 'molds', 60, 1200, 60)],
    'C02': [('config', 'gen', 300, 6000, 40), ('config', 'build', 60, 1000, 50)],
    'C03': [('config', 'value', 300, 6000, 70)],
    'C04': [('config', 'limit', 300, 6000, 70)],
    'C05': [('config', 'build', 300, 6000, 70), ('config', 'all', 100, 2000, 60)],
    'C06': [('mold', 'molds', 250, 5000, 80), ('mold', 'broken', 250, 5000, 80)],
    'C27': [('mold', 'docs', 400, 8000, 60)],
    'C07': [('config', 'query', 260, 5000, 60), ('config', 'many', 40, 800, 60)],
    'C08': [('config', 'query', 300, 6000, 80), ('config', 'many', 20, 400, 60)],
    'C09': [('config', 'many', 60, 1200, 80), ('config', 'limit', 150, 3000, 70)],
    'C10': [('config', 'refs', 400, 8000, 60), ('config', 'all', 100, 2000, 60)],
    'C12': [('config', 'compare', 300, 6000, 60)],
    'C13': [('config', 'update', 300, 6000, 40)],
    'C14': [('config', 'text', 300, 8000, 80), ('config', 'compare', 60, 1000, 50)],
    'C15': [('version', 'all', 400, 8000, 60)],
    'C28': [('error', 'all', 400, 8000, 60)],
    'C16': [('doc', 'json', 170, 3500, 30)],
    'C17': [('doc', 'toml', 170, 3500, 30)],
    'C18': [('doc', 'jmold', 110, 2200, 30)],
    'C26': [('doc', 'bytes', 130, 2000, 30), ('doc', 'mbytes', 60, 1000, 30), ('doc', 'json', 30, 600, 30), ('doc', 'toml', 30, 600, 30)],
    'C19': [('store', 'store', 120, 2400, 40), ('store', 'names', 40, 800, 40)],
    'C20': [('store', 'route', 120, 2400, 40), ('store', 'names', 60, 1200, 40)],
    'C21': [('store', 'over', 130, 2600, 40), ('store', 'store', 30, 600, 40)],
    'C29': [('store', 'torn', 220, 4000, 40)],
    'C22': [('archive', 'export', 160, 3000, 45), ('archive', 'import', 60, 1200, 45)],
    'C23': [('archive', 'import', 200, 4000, 45)],
    'C24': [('archive', 'faults', 200, 4000, 45)],
    'C25': [('archive', 'hostile', 150, 3000, 45), ('archive', 'faults', 60, 1200, 45)],
    'C11': [('config', 'coll', 400, 8000, 60)],
}

# The worlds (lib/worlds.py) whose every history is explored for a property: (world, depth in the quick
# tier, in the thorough tier). Of the longest histories at most CAP are replayed on the library.
MCS = {
    'C01': [('gen', 3, 4), ('docs', 4, 5)],
    'C02': [('gen', 4, 5), ('mold', 5, 6)],
    'C03': [('restr', 5, 6), ('tree', 5, 6)],
    'C04': [('tree', 6, 7), ('query', 4, 5)],
    'C05': [('tree', 6, 7), ('refs', 5, 6)],
    'C06': [('mold', 6, 7), ('msection', 6, 8), ('restr', 5, 7)],
    'C07': [('query', 5, 6)],
    'C08': [('query', 5, 6), ('gen', 3, 4)],
    'C09': [('tree', 5, 6), ('refs', 6, 7), ('query', 4, 5)],
    'C10': [('refs', 6, 8), ('tree', 5, 6)],
    'C11': [('refs', 6, 8)],
    'C12': [('compare', 5, 6)],
    'C13': [('update', 5, 7)],
    'C14': [('values', 1, 2)],
    'C15': [('order', 1, 1), ('text', 1, 1)],
    'C16': [('json', 4, 6), ('jdocs', 2, 2)],
    'C17': [('toml', 4, 6), ('tdocs', 2, 2)],
    'C18': [('jmold', 3, 4)],
    'C26': [('jdocs', 2, 2), ('tdocs', 2, 2)],
    'C19': [('store', 3, 5)],
    'C20': [('names', 3, 5), ('store', 3, 4)],
    'C21': [('over', 4, 5), ('names', 3, 4)],
    'C22': [('export', 5, 7)],
    'C23': [('import', 4, 5)],
    'C24': [('faults', 3, 3), ('export', 4, 6)],
    'C25': [('faults', 3, 3)],
    'C29': [('torn', 3, 4)],
    'C27': [('docs', 5, 6)],
    'C28': [('errors', 4, 6)],
}
CAP = {'quick': 3000, 'thorough': 40000}

def decide(run):
    import engine
    jobs = [(s, p, n if run.tier == 'quick' else nt, k) for s, p, n, nt, k in CHECKS[run.pid]]
    worlds = [(w, d if run.tier == 'quick' else t, CAP[run.tier]) for w, d, t in MCS.get(run.pid, [])]
    engine.run_traces(run, jobs, worlds)

NOTES = {}
NOT_APPLICABLE = {}
