import logging
import os

from common import attempt
from c22 import in_tmp
from envs import *  # noqa
from ipkg.environments import Environment
from ipkg.repositories import FormulaRepository, LocalPackageRepository

ENVS = {}


class Ordered(FormulaRepository):
    """Lists the formulas in the order of the case."""
    order = ()

    def __iter__(self):
        formulas = list(super(Ordered, self).__iter__())
        formulas.sort(key=lambda f: self.order.index(f.__name__)
                      if f.__name__ in self.order else 999)
        return iter(formulas)


class Notes(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.texts = []

    def emit(self, record):
        try:
            self.texts.append(record.getMessage())
        except Exception as err:
            self.texts.append('unreadable: %r' % err)


def op_build_all(repo, formulas, order, prefix, tmp):
    def run():
        env = None
        if prefix is not None:
            if prefix not in ENVS:
                ENVS[prefix] = Environment(prefix)
            env = ENVS[prefix]
        if order is None:
            source = FormulaRepository(formulas)
        else:
            source = Ordered(formulas)
            source.order = order
        repository = LocalPackageRepository(repo)
        notes = Notes()
        logger = logging.getLogger('ipkg')
        logger.addHandler(notes)
        disabled, logging.root.manager.disable = \
            logging.root.manager.disable, 0
        try:
            built = repository.build_formulas(source, env)
        finally:
            logging.root.manager.disable = disabled
            logger.removeHandler(notes)
        return [list(built), notes.texts,
                [dict(p.meta) for p in repository],
                [dict(p.meta) for p in LocalPackageRepository(repo)]]
    return in_tmp(tmp, os.getcwd(), run)


def op_forget():
    ENVS.clear()
