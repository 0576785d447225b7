from c03 import verdicts
from ipkg.requirements import Requirement


def op_parse(text):
    Requirement(text)


def op_print(text, candidates):
    r = Requirement(text)
    s = str(r)
    r2 = Requirement(s)
    return {'str': s, 'again': str(r2),
            'eq': r == r2, 'ne': r != r2, 'hash': hash(r) == hash(r2),
            'eq text': r == s, 'ne text': r != s,
            'same': [r.name == r2.name, list(r.extras) == list(r2.extras),
                     str(r.platform) == str(r2.platform)],
            'name': r.name, 'extras': list(r.extras),
            'platform': str(r.platform),
            'v1': verdicts(r, candidates), 'v2': verdicts(r2, candidates)}


def op_relations(texts, others):
    rs = [Requirement(t) for t in texts]
    return {'eq': [[a == b for b in rs] for a in rs],
            'ne': [[a != b for b in rs] for a in rs],
            'hash': [hash(r) for r in rs],
            'text eq': [[a == t for t in texts] for a in rs],
            'text ne': [[a != t for t in texts] for a in rs],
            'other eq': [[a == o for o in others] for a in rs],
            'other ne': [[a != o for o in others] for a in rs]}
