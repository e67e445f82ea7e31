import sys
def main():
    from mc import core
    cmd = sys.argv[1]
    if cmd == 'run':
        return core.main_run(sys.argv[2].upper(), sys.argv[3] if len(sys.argv) > 3 else 'quick')
    if cmd == 'replay':
        return core.main_replay(sys.argv[2])
    if cmd == 'selftest':
        import pydantic_core
        print('pydantic_core', pydantic_core.__version__, pydantic_core.__file__)
        return 0
    print('usage', file=sys.stderr)
    return 2
sys.exit(main())
