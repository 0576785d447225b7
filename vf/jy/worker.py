"""Runs under Jython 2.7: executes operations of one property module.

worker.py REQ RESP REPO MODULE OFFSET
"""
import sys

_used = [object() for _ in range(int(sys.argv[5]))]
for _o in _used:
    hash(_o)

import json
import logging
import os
import traceback

REQ, RESP, REPO, MODULE = sys.argv[1:5]
sys.argv = ['ipkg']
# /repo itself, before its parents' leftovers
sys.path.insert(0, REPO)

_resp = open(RESP, 'w', 0)
_req = open(REQ, 'r')


def send(obj):
    _resp.write(json.dumps(obj) + '\n')
    _resp.flush()


class NullHandler(logging.Handler):
    def emit(self, record):
        pass


def decode(value):
    """wire -> Python 2: text becomes str (one byte per char)"""
    if isinstance(value, unicode):
        return value.encode('latin-1')
    if isinstance(value, list):
        return [decode(v) for v in value]
    if isinstance(value, dict):
        if len(value) == 1 and '__u__' in value:
            return value['__u__']
        if len(value) == 1 and '__t__' in value:
            return tuple(decode(v) for v in value['__t__'])
        return dict((decode(k), decode(v)) for k, v in value.items())
    return value


def encode(value):
    if isinstance(value, str):
        return value.decode('latin-1')
    if isinstance(value, unicode):
        try:
            value.encode('ascii')
            return value
        except UnicodeError:
            return {'__u__': value}
    if value is None or isinstance(value, (bool, int, long, float)):
        return value
    if isinstance(value, dict):
        return dict((encode_key(k), encode(v)) for k, v in value.items())
    if isinstance(value, (list, tuple, set, frozenset)):
        return [encode(v) for v in value]
    return {'__repr__': repr(value).decode('latin-1')}


def encode_key(k):
    if isinstance(k, unicode):
        return k.encode('utf-8').decode('latin-1')
    if isinstance(k, str):
        return k.decode('latin-1')
    return repr(k)


def describe(exc_info):
    from ipkg.exceptions import IpkgException
    cls, value, tb = exc_info
    try:
        msg = str(value)
    except:
        msg = '<no message>'
    if isinstance(msg, unicode):
        msg = msg.encode('utf-8')
    msg = str(msg)
    name = getattr(cls, '__name__', str(cls))
    try:
        bases = [c.__name__ for c in cls.__mro__]
    except AttributeError:
        bases = [name]
    try:
        text = ''.join(traceback.format_tb(tb))[-1500:]
        if isinstance(text, unicode):
            text = text.encode('utf-8')
    except:
        text = ''
    return {'type': name, 'bases': bases, 'msg': msg,
            'ipkg': 'IpkgException' in bases, 'tb': text}


def main():
    root = logging.getLogger()
    root.addHandler(NullHandler())
    # ipkg logs at debug level are built eagerly in places: keep them
    logging.getLogger('ipkg').setLevel(logging.ERROR)
    import common
    common.describe = describe
    common.encode = encode
    module = __import__(MODULE)
    send('ready')
    while True:
        line = _req.readline()
        if not line:
            break
        op, args = json.loads(line)
        args = decode(args)
        func = getattr(module, 'op_' + op, None) or \
            getattr(common, 'op_' + op, None)
        if func is None:
            send({'harness': 'unknown operation %s' % op})
            continue
        try:
            answer = {'ok': encode(func(**args))}
        except common.Harness, e:
            answer = {'harness': ''.join(traceback.format_exception(
                *sys.exc_info())).decode('latin-1')}
        except:
            answer = {'err': encode(describe(sys.exc_info()))}
        send(answer)


main()
