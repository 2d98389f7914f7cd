"""Obligations and their verdicts."""
PROVED, VIOLATED, UNDECIDED = 'proved', 'violated', 'undecided'


class Obl(object):
    __slots__ = ('prop', 'rule', 'where', 'text', 'verdict', 'detail', 'site')

    def __init__(self, prop, rule, where, text, verdict, detail='', site=None):
        self.prop, self.rule, self.where, self.text, self.verdict, self.detail = prop, rule, where, text, verdict, detail
        self.site = site or where


class Report(object):
    def __init__(self):
        self.obls = []
        self.analysed = set()
        self.notes = []

    def add(self, prop, rule, where, text, verdict, detail='', site=None):
        for p in (prop if isinstance(prop, (tuple, list)) else [prop]):
            self.obls.append(Obl(p, rule, where, text, verdict, detail, site))
        return verdict

    def ok(self, prop, rule, where, text, cond, detail='', site=None):
        """cond: True / False / None"""
        v = PROVED if cond is True else UNDECIDED if cond is None else VIOLATED
        return self.add(prop, rule, where, text, v, detail if v != PROVED else '', site)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
