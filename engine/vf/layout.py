"""Which classes of /repo no longer have the data members they had when the harness was written.

The harness starts from objects with arbitrary contents.  That is a superset of the reachable states as long as
the data members are independent of each other, which they are on the tree the harness was written for.  A class
that has gained, lost or reordered members may keep a relation between them (a cached value), so that arbitrary
contents are states no program can reach.  An alarm is then decided on states reached through the interface.
"""
import json, re, subprocess, sys

CLASSES = {
    "multirotor::Simulator<double, 4>": "SIM",
    "multirotor::dynamics::Dynamics<double, 4>": "DYN", "multirotor::dynamics::Dynamics<>": "DYN",
    "multirotor::model::Model<double, 4>": "MODEL", "multirotor::model::Model<>": "MODEL",
    "multirotor::controller::Controller<double, 4>": "CTRL", "multirotor::controller::Controller<>": "CTRL",
    "acro_controller::AcroController<>": "ACRO",
    "indi_controller::IndiController<>": "INDI",
    "position_controller::PositionController<>": "LOOPS",
    "velocity_controller::VelocityController<>": "LOOPS",
    "trajectory_controller::TrajectoryController<>": "LOOPS",
    "pid_controller::PID<>": "PID",
    "pid_1d_controller::PID<>": "PID1",
    "imu::IMU<>": "IMU",
    "imu::InertialOdometry<>": "ODOM",
}


def norm(n):
    n = n.replace("class ", "").replace("struct ", "").strip()
    n = re.sub(r"<double, [34]>$", "<>", n)
    return re.sub(r"<double>$", "<>", n)


KEY = {norm(k): v for k, v in CLASSES.items()}


def layouts(flags, src):
    r = subprocess.run(["clang++"] + flags + ["-Xclang", "-fdump-record-layouts", "-fsyntax-only", src], capture_output=True, text=True)
    out = {}
    for block in r.stdout.split("*** Dumping AST Record Layout")[1:]:
        lines = block.strip().splitlines()
        head = lines[0].split("|", 1)[1].strip()
        key = KEY.get(norm(head.replace(" (empty)", "")))
        if key is None:
            continue
        own = []
        for l in lines[1:]:
            m = re.match(r"\s*([\d:-]+) \| ( +)(.*)", l)
            if m and len(m.group(2)) == 2:  # direct bases and members; names and offsets do not matter
                own.append(re.sub(r"\s+\w+$", "", m.group(3)))
        out.setdefault(key, []).append(own)
    return out


OURS = re.compile(r"^(multirotor|imu|\w+_controller)::")
WHOLE = re.compile(r"^(unsigned |signed |const |mutable |volatile )*(int|long|short|unsigned|long long|unsigned int|long int|(std::)?(size_t|u?int(_fast|_least)?(16|32|64)_t))$")
WIDTH = {"int": 4, "unsigned": 4, "unsigned int": 4, "short": 2, "unsigned short": 2, "int16_t": 2, "uint16_t": 2, "int32_t": 4, "uint32_t": 4}


def ints(dump):
    """Where the plain numbers (not flags, not enumerations) among the data members of the classes of /repo lie."""
    out = {}
    for block in dump.split("*** Dumping AST Record Layout")[1:]:
        lines = block.strip().splitlines()
        head = norm(lines[0].split("|", 1)[1].replace(" (empty)", ""))
        if not OURS.match(head):
            continue
        found, stack = [], [(0, head)]
        for l in lines[1:]:
            m = re.match(r"\s*(\d+) \|( +)(.*)", l)
            if not m:
                continue
            off, ind, what = int(m.group(1)), len(m.group(2)), m.group(3).strip()
            while stack and stack[-1][0] >= ind:
                stack.pop()
            kind = re.sub(r"\s+\w+$", "", what) if "(" not in what else re.sub(r"\s*\(.*", "", what)
            kind = kind.replace("class ", "").replace("struct ", "")
            if stack and OURS.match(stack[-1][1]):
                t = kind.replace("std::", "").replace("mutable ", "").replace("volatile ", "")
                if WHOLE.match(kind):
                    found.append((off, "i%d" % (8 * WIDTH.get(t, 8))))
                elif t in ("double", "float"):
                    found.append((off, "f64" if t == "double" else "f32"))
            stack.append((ind, kind))
        out[head] = found
    return out


def changed(flags, verif):
    base = json.load(open(verif + "/harness/layouts.json"))
    now = layouts(flags, verif + "/harness/layout.cpp")
    return sorted(k for k in base if now.get(k) != base[k])


if __name__ == "__main__":
    sys.path.insert(0, "/verif/engine")
    from vf import check as C
    json.dump(layouts(C.CXXFLAGS[:1] + C.incs(), C.VERIF + "/harness/layout.cpp"), open(C.VERIF + "/harness/layouts.json", "w"), indent=1)
