"""mk(id, ...) writes one property file."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props')
def mk(id, title, statement, over, text, why, files, mech, design, technique, level_note, state=(), observe=(), hook=None, **kw):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 3
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    p = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a,
             design=design, technique=technique, level_note=level_note, **kw)
    json.dump(p, open('%s/%s.json' % (D, id), 'w'), indent=1, ensure_ascii=False)
