"""C11 on real FTrace objects and the real registry."""
from common import *
import itertools
RULE = 'random registrations (in the scopes all, sched, thermal), unregistrations and opens with random scopes and event lists (names, keywords, keywords without colon, unknown events, keywords that contain each other); compares the tables, the generic parsers and the ambiguity verdict; non-trivial: at least one event requested or registered'
def corpus():
    return [dict(reg=[], unreg=[], scope=s, events=e) for s in ('all', 'sched', 'thermal', 'custom') for e in ([], ['sched_switch'], ['sched_switch:'], ['unknown_ev'], ['sched_wakeup', 'foo'], ['switch'], ['cpu_in_power'], ['thermal_power_cpu_get_power'], ['sys_enter_x'], ['tracing_mark_write'])] + \
        [dict(reg=[['MyEvent', 'my_word', 'sched'], ['OtherEv', 'other_word:', 'all'], ['ThEv', 'th_word', 'thermal']], unreg=u, scope=s, events=e) for u in ([], [0], [1, 2]) for s in ('all', 'sched', 'thermal', 'custom') for e in ([], ['my_event'], ['my_word'], ['other_word'], ['th_ev', 'my_event'])] + \
        [dict(reg=[['AbC', 'dup_word', 'all'], ['XyZ', 'a_dup_word_b', 'sched']], unreg=[], scope=s, events=e) for s in ('all', 'sched', 'custom') for e in ([], ['dup_word'], ['ab_c', 'xy_z'], ['xy_z', 'dup'])]
def gen(r):
    words = ['zz_one', 'zz_two', 'zz_on', 'qq', 'qq_long', 'zz_one_more']
    reg = [[r.choice(['MyEvent', 'SomeOther', 'Third', 'Plain']) + str(i), r.choice(words) + r.choice(['', ':', ':']), r.choice(['all', 'sched', 'thermal'])] for i in range(r.randint(0, 3))]
    pool = words + [w + ':' for w in words] + ['sched_switch', 'sched_wakeup', 'wakeup', 'sched_contrib_scale_f', 'sched_contrib_scale_factor', 'cpu_frequency', 'thermal', 'new_ev', 'new_ev2', 'devfreq_in_power'] + [nm(x[0]) for x in reg]
    return dict(reg=reg, unreg=[i for i in range(len(reg)) if r.random() < .3], scope=r.choice(['all', 'sched', 'thermal', 'custom', 'custom']), events=r.sample(pool, r.randint(0, 3)))
def nm(s):
    import re
    return re.sub('(?!^)([A-Z]+)', r'_\1', s).lower()
def check(c):
    import trappy
    from trappy.ftrace import GenericFTrace as G
    regs = []
    scopes = dict(all=G.dynamic_classes, sched=G.sched_classes, thermal=G.thermal_classes)
    before = {k: dict(v) for k, v in scopes.items()}
    try:
        for n, w, s in c['reg']:
            cl = trappy.register_dynamic_ftrace(n, w, s); regs.append(cl)
            if scopes[s].get(nm(n)) is not cl or cl.unique_word != w: return '%s is not available in scope %s as %s' % (n, s, nm(n))
        for i in c['unreg']:
            trappy.unregister_dynamic_ftrace(regs[i])
            if any(v is regs[i] for d in scopes.values() for v in d.values()): return '%s is still registered' % c['reg'][i][0]
        for k in scopes:
            want = dict(before[k]); want.update({nm(x[0]): regs[i] for i, x in enumerate(c['reg']) if x[2] == k and i not in c['unreg']})
            if scopes[k] != want: return 'scope %s holds %r, expected %r' % (k, sorted(scopes[k]), sorted(want))
        known = [cl for d in (G.thermal_classes, G.sched_classes, G.dynamic_classes) for cl in d.values()]
        sel = {}
        for e in c['events']:
            m = [cl for cl in known if e in (cl.unique_word, cl.name) or e + ':' == cl.unique_word]
            if len({cl.name for cl in m}) > 1 or len(m) > 1: raise Skip()
            if m: sel[m[0].name] = m[0]
            else: sel[e] = None
        for d in {'thermal': [G.thermal_classes, G.dynamic_classes], 'sched': [G.sched_classes, G.dynamic_classes], 'custom': [], 'all': [G.thermal_classes, G.sched_classes, G.dynamic_classes]}[c['scope']]:
            sel.update(d)
        kw = [cl.unique_word if cl else n + ':' for n, cl in sel.items()]
        amb = any(a in b or b in a for a, b in itertools.combinations(kw, 2))
        p = put('t-1 [000] 1.5: none: a=1\n')
        try: t = ftrace(p, scope=c['scope'], events=list(c['events']))
        except RuntimeError as e:
            return None if amb else 'opening failed: %s' % e
        finally: rm(p)
        if amb: return 'ambiguous keywords accepted: %r' % kw
        if set(t.class_definitions) != set(sel): return 'events %r, expected %r' % (sorted(t.class_definitions), sorted(sel))
        if len(t.trace_classes) != len(sel): return '%d tables, expected %d' % (len(t.trace_classes), len(sel))
        for n, cl in sel.items():
            o = getattr(t, n)
            if o not in t.trace_classes: return 'table %s is not one of the trace' % n
            if cl is None:
                if o.unique_word != n + ':' or type(o).__mro__[1] is not trappy.base.Base or o.name != n: return 'unknown event %s got %r (%r)' % (n, type(o), o.unique_word)
            elif type(o) is not cl: return 'event %s got class %r' % (n, type(o))
    finally:
        for cl in regs: trappy.unregister_dynamic_ftrace(cl)
    for k in scopes:
        if scopes[k] != before[k]: return 'scope %s changed: %r' % (k, set(scopes[k]) ^ set(before[k]))
