"""Stand-in for cate.util.cli (not installed here): the interface dedop's command line uses of it.

Parses the arguments, runs one command, turns a CommandError into exit status 1.
"""
import argparse
import sys


class CommandError(Exception):
    def __init__(self, cause, *args):
        super().__init__(str(cause), *args)
        self.cause = cause


class Command:
    @classmethod
    def name(cls):
        raise NotImplementedError

    @classmethod
    def parser_kwargs(cls):
        return {}

    @classmethod
    def configure_parser(cls, parser):
        pass

    def execute(self, command_args):
        raise NotImplementedError

    @classmethod
    def new_monitor(cls):
        from dedop.util.monitor import ConsoleMonitor
        return ConsoleMonitor(stay_in_line=True, progress_bar_size=30)


class SubCommandCommand(Command):
    @classmethod
    def configure_parser(cls, parser):
        cls.configure_parser_and_subparsers(parser, parser.add_subparsers(metavar='COMMAND'))

    @classmethod
    def configure_parser_and_subparsers(cls, parser, subparsers):
        raise NotImplementedError


class _Exit(Exception):
    def __init__(self, status):
        self.status = status


class _Parser(argparse.ArgumentParser):
    def exit(self, status=0, message=None):
        raise _Exit(status)

    def error(self, message):
        raise _Exit(2)


def _make_parser(name, description, version, commands, license_text=None, docs_url=None):
    parser = _Parser(prog=name, description=description)
    parser.add_argument('--version', action='version', version=version)
    subs = parser.add_subparsers(dest='command_name', metavar='COMMAND')
    for c in commands:
        p = subs.add_parser(c.name(), **c.parser_kwargs())
        c.configure_parser(p)
        p.set_defaults(command_class=c)
    return parser


def run_main(name, description, version, command_classes, license_text=None, docs_url=None, error_message_trimmer=None,
             args=None):
    if args is None:
        args = sys.argv[1:]
    try:
        ns = _make_parser(name, description, version, command_classes).parse_args(args)
        if not getattr(ns, 'command_class', None):
            return 0
        ns.command_class().execute(ns)
        return 0
    except _Exit as e:
        return e.status
    except CommandError as e:
        print('%s: error: %s' % (name, e), file=sys.stderr)
        return 1
