import logging
import os
import sys
import tempfile
import traceback

from common import attempt, Harness
from envs import *  # noqa
from ipkg import cli
from ipkg.build import Formula
from ipkg.environments import Environment, current
from ipkg.files import vopen
from ipkg.repositories import (FormulaRepository, LocalPackageRepository,
                               PackageRepository)


class Sink(logging.Handler):
    def emit(self, record):
        pass


def setting(world, active, func):
    """Call with the working directory and the environment variables of a
    world"""
    here = os.getcwd()
    keep = dict((k, os.environ.get(k)) for k in ('TMPDIR',
                                                 'IPKG_ENVIRONMENT', 'VFOUT'))
    os.chdir(world)
    os.environ['TMPDIR'] = world + '/tmp'
    os.environ['VFOUT'] = world + '/out'
    os.environ.pop('IPKG_ENVIRONMENT', None)
    if active is not None:
        os.environ['IPKG_ENVIRONMENT'] = active
    tempfile.tempdir = None
    try:
        return func()
    finally:
        os.chdir(here)
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        tempfile.tempdir = None


def op_cli(world, active, args):
    """[exit status, stdout, stderr]"""
    def run():
        logger = logging.getLogger('ipkg')
        level, handlers = logger.level, list(logger.handlers)
        out, err = open(world + '/stdout', 'w'), open(world + '/stderr', 'w')
        real = sys.argv, sys.stdout, sys.stderr
        sys.argv, sys.stdout, sys.stderr = ['ipkg'] + args, out, err
        status = 0
        try:
            cli.ipkg()
        except SystemExit as exc:
            # as the interpreter does
            code = exc.code
            if code is None:
                status = 0
            elif isinstance(code, (int, long)):
                status = code & 255
            else:
                err.write('%s\n' % code)
                status = 1
        except:
            status = 1
            lines = traceback.format_exception(*sys.exc_info())
            for line in lines:
                if isinstance(line, unicode):
                    line = line.encode('utf-8')
                err.write(line)
        finally:
            sys.argv, sys.stdout, sys.stderr = real
            out.close()
            err.close()
            logger.setLevel(level)
            for handler in list(logger.handlers):
                if handler not in handlers:
                    logger.removeHandler(handler)
        result = [status]
        for name in ('/stdout', '/stderr'):
            with open(world + name) as f:
                result.append(f.read())
            os.unlink(world + name)
        return result
    return setting(world, active, run)


def text(value):
    return value.encode('utf-8') if isinstance(value, unicode) else str(value)


def op_lib(world, active, command, args):
    """What the command stands for"""
    def environment():
        path = args.get('environment')
        return current() if path is None else Environment(path)

    def given():
        path = args.get('environment')
        return None if path is None else Environment(path)

    def repository(cls=PackageRepository):
        path = args.get('repository')
        return None if path is None else cls(path)

    def run():
        if command == 'list':
            return ''.join('%s==%s\n' % (text(p.name), text(p.version))
                           for p in environment().packages)
        elif command == 'install':
            env = given()
            repo = repository()
            (env or current()).install(args['package'], repo)
        elif command == 'uninstall':
            environment().uninstall(args['package'])
        elif command == 'mkenv':
            repo = repository()
            lines = []
            if args.get('requirements'):
                lines = vopen(args['requirements']).read().splitlines()
            env = environment()
            env.directories.create()
            for line in lines:
                env.install(line, repo)
        elif command == 'printenv':
            return text(environment().variables.as_string(
                args.get('export', False)))
        elif command == 'exec':
            environment().execute([args['command']] + args['arguments'])
        elif command == 'shell':
            environment().execute(args['shell'])
        elif command == 'build':
            env = given()
            repo = repository()
            formula = Formula.from_file(args['file'])(env)
            if args.get('update'):
                LocalPackageRepository(repo.base).build_formula(
                    formula, not args.get('keep'))
            else:
                formula.build(args['dir'], not args.get('keep'), repo)
        elif command == 'mkrepo':
            repository(LocalPackageRepository).update_metadata()
        elif command == 'build-repository':
            env = given()
            repo = repository(LocalPackageRepository)
            formulas = FormulaRepository(args['formulas'])
            return [text(os.path.basename(p))
                    for p in repo.build_formulas(formulas, env)]
        elif command == 'config:get':
            return text(environment().get_config(args['key'])) + '\n'
        elif command == 'config:set':
            environment().set_config(args['key'], args['value'])
        else:
            raise Harness(command)
    return setting(world, active, lambda: attempt(run))
