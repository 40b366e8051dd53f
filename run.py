"""run.py ID [--tier quick|thorough] [--seed N] | ID --replay FILE | --setup"""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

if os.environ.get("PYTHONHASHSEED") != "0":
    # fixed string hashing, so that a seed fixes the whole run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
if "--replay" in sys.argv and not sys.flags.optimize:
    with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
        if '"optimize": 1' in f.read():
            # found with assertions off
            os.execv(sys.executable, [sys.executable, "-O"] + sys.argv)

from vlib import core  # noqa: E402


def main(argv):
    if argv[0] == "--setup":
        from vlib import selftest

        return selftest.main()
    pid = argv[0].upper()
    if "--shard" in argv:
        k, K, out, seed, tier = argv[argv.index("--shard") + 1 :][:5]
        core.shard(pid, int(k), int(K), out, int(seed), tier)
        return 0
    if "--replay" in argv:
        return core.replay(pid, argv[argv.index("--replay") + 1])
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else None
    seed = argv[argv.index("--seed") + 1] if "--seed" in argv else None
    return core.main(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
