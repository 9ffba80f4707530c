"""Which harness decides which property, in which build configuration, within which bounds."""
BASE = ["PLATFORM_Linux", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=0"]
CONFIGS = {
    "single": BASE + ["LF_SINGLE_THREADED=1"],
    "multi": BASE + ["NUMBER_OF_WORKERS=2"],
    "gedf": BASE + ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_GEDF_NP"],
    "adaptive": BASE + ["NUMBER_OF_WORKERS=2", "SCHEDULER=SCHED_ADAPTIVE"],
    "modal": BASE + ["LF_SINGLE_THREADED=1", "MODAL_REACTORS=1"],
    "rti": ["PLATFORM_Linux", "LOG_LEVEL=0", "FEDERATED=1", "STANDALONE_RTI=1"],
    "rti-auth": ["PLATFORM_Linux", "LOG_LEVEL=0", "FEDERATED=1", "STANDALONE_RTI=1", "__RTI_AUTH__=1"],
    "fedc": BASE + ["NUMBER_OF_WORKERS=2", "FEDERATED=1", "FEDERATED_CENTRALIZED=1", "NUMBER_OF_FEDERATES=3", "FEDERATE_ID=0", "LF_CLOCK_SYNC=3",
                    "ADVANCE_MESSAGE_INTERVAL=10000000", '_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b,c"'],
    "fedd": BASE + ["NUMBER_OF_WORKERS=2", "FEDERATED=1", "FEDERATED_DECENTRALIZED=1", "NUMBER_OF_FEDERATES=3", "FEDERATE_ID=0", "LF_CLOCK_SYNC=3",
                    "ADVANCE_MESSAGE_INTERVAL=10000000", '_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b,c"'],
}
COMMON_ASSUMPTIONS = [
    "malloc/calloc/realloc succeed (allocation failure is out of scope)",
    "logging and tracing calls have empty bodies; LOG_LEVEL=0",
    "LP64 x86-64 data model as encoded by goto-cc; unbounded behaviour outside the stated bounds is not claimed",
]
ASSUMPTIONS = {}
HARNESSES = []

def H(prop, entry, file, what, bounds, unwind, srcs=(), config="single", **kw):
    HARNESSES.append(dict(property=prop, entry=entry, file=file, what=what, bounds=bounds, unwind=unwind, srcs=list(srcs), config=config, **kw))

import importlib, pkgutil, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "reg"))
for m in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "reg"))):
    if m.endswith(".py"): exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "reg", m)).read(), m, "exec"))
