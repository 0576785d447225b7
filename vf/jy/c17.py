import faults  # first, before ipkg binds the functions it replaces
from common import attempt
from ipkg.environments import Environment
from ipkg.repositories import LocalPackageRepository
from ipkg.utils import DictFile

S = {}


def value(v):
    if isinstance(v, dict) and v.keys() == ['__d__']:
        return dict((k, value(x)) for k, x in v['__d__'])
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


def op_new(path):
    def run():
        S['d'] = DictFile(path)
    return attempt(run)


def op_look(path):
    return attempt(lambda: [
        [[k, v] for k, v in dict_of(S['d']).items()],
        attempt(lambda: dict(DictFile(path)))])


def dict_of(d):
    out = {}
    for k in list(d):
        v = d[k]
        try:
            import json
            json.dumps(v)
        except:
            v = None
        out[k] = v
    return out


def op_set(key, **kw):
    S['d'][key] = value(kw['value'])


def op_bad(key, kind):
    circular = []
    circular.append(circular)
    S['d'][key] = {
        'object': object(), 'set': set([1]), 'bytes': '\xff\xfe',
        'circular': circular, 'key': {(1, 2): 3}, 'function': value,
        'deep': {'a': [1, {'b': object()}]}}[kind]


def op_delete(key):
    S['d'].pop(key, None)


def op_save():
    return attempt(S['d'].save)


def op_clear():
    return attempt(S['d'].clear)


def op_reload():
    return attempt(S['d'].reload)


def op_faulty(at, mode):
    return faults.run(S['d'].save, at, mode)


def op_open_fresh(path):
    return attempt(lambda: dict(DictFile(path)))


def op_open_env(path):
    return attempt(lambda: Environment(path) and None)


def op_open_repository(path):
    return attempt(lambda: list(LocalPackageRepository(path)) and None)


def op_make(path):
    def run():
        env = Environment(path)
        env.directories.create()
        S['e'] = env
    return attempt(run)


def op_reopen_env(path):
    def run():
        S['e'] = Environment(path)
    return attempt(run)


def op_set_config(key, **kw):
    return attempt(S['e'].set_config, key, kw['value'])


def op_set_config_faulty(key, at, mode, **kw):
    return faults.run(lambda: S['e'].set_config(key, kw['value']), at, mode)


def op_get_config(path, keys):
    def run():
        other = Environment(path)
        return [S['e'].get_config(k) for k in keys] + [
            other.get_config(k) for k in keys]
    return attempt(run)
