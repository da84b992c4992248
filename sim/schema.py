"""the PostgreSQL schema the server code talks to (inferred from its SQL)"""
from .pgengine import Activity, Database, Table


def serial(ex, t):
    t.serial += 1
    return t.serial


def now(ex, t):
    return ex.txn.start


def false(ex, t):
    return False


def make_db(ctx, **kw):
    sim = ctx.sim
    k = ctx.case.get('knobs', {})
    db = Database(lambda: sim.now, lambda pred: sim.wait(pred), mid_point=sim.preempt, reverse_scan=k.get('reverse_scan', False), **kw)
    db.add_table(Table('queue', [
        ('id', 'int', serial, True), ('priority', 'int', lambda e, t: 1, True), ('student_id', 'text', None, True), ('area_catalog', 'text', None, True),
        ('area_code', 'text', None, True), ('input_data', 'jsonb', None, True), ('run', 'int', None, False), ('expires_at', 'timestamptz', None, False),
        ('link_only', 'bool', false, True), ('ts', 'timestamptz', now, True),
    ], unique=[('queue_pkey', lambda v: v['id'])]))
    db.add_table(Table('result', [
        ('id', 'int', serial, True), ('student_id', 'text', None, True), ('area_code', 'text', None, True), ('catalog', 'text', None, True),
        ('run', 'int', None, False), ('input_data', 'jsonb', None, True), ('expires_at', 'timestamptz', None, False), ('link_only', 'bool', false, True),
        ('result_version', 'int', None, False), ('iterations', 'int', None, True), ('duration', 'interval', None, True), ('per_iteration', 'interval', None, True),
        ('rank', 'numeric', None, True), ('max_rank', 'numeric', None, True), ('result', 'jsonb', None, True), ('ok', 'bool', None, True),
        ('ts', 'timestamptz', now, True), ('gpa', 'numeric', None, True), ('claimed_courses', 'jsonb', None, False), ('status', 'text', None, True),
        ('is_active', 'bool', false, True), ('revision', 'int', None, True), ('student_classification', 'text', None, False), ('student_class', 'text', None, False),
        ('student_name', 'text', None, False), ('student_name_sort', 'text', None, False),
    ], unique=[('result_pkey', lambda v: v['id'])]))
    db.add_table(Table('queue_block', [
        ('student_id', 'text', None, True), ('area_code', 'text', None, True), ('added_by', 'text', None, False), ('added_at', 'timestamptz', now, True),
    ]))
    db.add_table(Table('map_constant_area', [
        ('area_code', 'text', None, True), ('course', 'text', None, False), ('crsid', 'text', None, False),
    ], unique=[('map_constant_area_uniq', lambda v: (v['area_code'], v['course'] is None, v['course'], v['crsid'] is None, v['crsid']))]))
    db.add_table(Table('map_attribute_area', [
        ('attr', 'text', None, True), ('area_code', 'text', None, True), ('catalog_year', 'text', None, True),
    ], unique=[('map_attribute_area_uniq', lambda v: (v['attr'], v['area_code'], v['catalog_year']))]))

    db.add_table(Activity())

    def notify(txn, sub, vals):
        txn.notifies.append((sub, 'dp_queue_update', ''))
    db.triggers['queue'] = notify
    sim.env['db'] = db

    def reaper(session, delay):
        p = sim.process(f'server:{session.pid}', lambda: (sim.sleep(delay), session.terminate()))
        p.data['role'] = 'server'
    sim.env['reaper'] = reaper
    return db
