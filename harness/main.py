"""check PROPERTY [--quick|--thorough]"""
import importlib
import sys
import traceback

MODULES = {}
for mod, props in (('checks_patterns', 'C01 C02 C03 C04 C06 C07 C08 C19 C20'),
                   ('checks_dict', 'C05'), ('checks_persist', 'C09 C10'),
                   ('checks_wrap', 'C11 C12'), ('checks_opt', 'C13 C14 C15'),
                   ('checks_autodiff', 'C16 C17 C18'), ('checks_heap', 'C21'), ('checks_build', 'C22'), ('checks_pipe', 'C23')):
    for p in props.split():
        MODULES[p] = mod

ASSUMPTIONS = ['TLC 1.8 evaluates the specifications in /verif/spec correctly.',
               'Expected numbers are exact in the specification and compared in floating point '
               'with relative tolerances between 1e-13 and 1e-7.']


def main(argv):
    prop = argv[0]
    import report
    chk = report.Check(prop, argv[1:])
    mod = importlib.import_module(MODULES[prop])
    try:
        getattr(mod, prop.lower())(chk)
    except Exception:
        traceback.print_exc()
        print('%s: the check itself failed (no verdict)' % prop)
        return 3
    return chk.finish(ASSUMPTIONS)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
