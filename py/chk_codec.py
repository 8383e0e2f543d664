"""U05, U09: wire encoding, socket transfer, RTI addresses."""
from common import *
from chk_util import harvest
DEFSF = ["PLATFORM_Linux", "LOG_LEVEL=0", "NUMBER_OF_WORKERS=2", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "FEDERATED=1", "FEDERATED_CENTRALIZED=1",
         "NUMBER_OF_FEDERATES=2", "FEDERATE_ID=0", '_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b"', "ADVANCE_MESSAGE_INTERVAL=10000000"]
def mk(what, rule, quick, thorough):
    def f(chk):
        exe = build("u_codec", runtime_sources(REPO, True, federated=True) + [os.path.join(VERIF, "c", x) for x in ("u_codec.c", "u_fedstub.c")], DEFSF,
                    ld=wraps("read", "write", "recv", "send", "close", "shutdown", "lf_sleep"))
        n = quick if chk.quick else thorough
        def one(s):
            cmd = [exe, what, str(s), str(n)]
            return cmd, run(cmd, timeout=700)
        for cmd, r in pmap(one, [chk.seed * 1000 + i for i in range(8)]):
            if harvest(chk, r, dict(cmd=cmd[1:]), what) == "timeout":
                chk.violation(what + ":hang", "did not finish", dict(cmd=cmd[1:]))
        chk.rule = rule
        return chk.finish(ndistinct=chk.extra.pop("distinct", 0))
    return f
CHECKS = {
    "U05": mk("codec", "integers, tags and headers biased to boundaries against an independent codec; reads and writes of 0-3000 bytes against an injected kernel (segmentation, EINTR/EAGAIN, end of file, errors); distinct = value classes and (direction, variant, break, segmentation, transient errors, size class)", 12000, 800000),
    "U09": mk("addr", "well-formed addresses, invalid user names, ports out of range or not numeric, random bytes; distinct = (form, field lengths, kind of invalidity)", 1500, 60000),
}
