# property -> how to build its check
ASAN = "asan"
HTTPDIRS = ["core/http/", "core/encoding", "core/polyfill", "core/network", "core/compression", "core/utils", "core/crypto"]
FULL = ["core"]
NETLIB = ["lib/sched.cpp", "lib/simnet.cpp"]
RACELIB = NETLIB + ["lib/race.cpp"]
CHECKS = {
    "TRACE": dict(src=["tests/race_self.cpp"], dirs=["core/polyfill"], lib=RACELIB, variant="race"),  # self-test, no property
    "C01": dict(src=["checks/c01.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C02": dict(src=["checks/c02.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C03": dict(src=["checks/c03.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C04": dict(src=["checks/c04.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C05": dict(src=["checks/c05.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C06": dict(src=["checks/c06.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C07": dict(src=["checks/c07.cpp"], dirs=FULL, lib=NETLIB, kind="fault", level="fault_enumeration"),
    "C08": dict(src=["checks/c08.cpp"], dirs=FULL, lib=RACELIB, variant="race", kind="race"),
    "C09": dict(src=["checks/c09.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C10": dict(src=["checks/c10.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C11": dict(src=["checks/c11.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C12": dict(src=["checks/c12.cpp"], dirs=FULL, lib=NETLIB, kind="fault", level="fault_enumeration"),
    "C13": dict(src=["checks/c13.cpp"], dirs=FULL, lib=RACELIB, variant="race", kind="race"),
    "C14": dict(src=["checks/c14.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C40": dict(src=["checks/c40.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C41": dict(src=["checks/c41.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C42": dict(src=["checks/c42.cpp"], dirs=FULL + ["extra/vfs", "extra/kvstorage"], lib=NETLIB, kind="sched", quarantine=0),
    "C43": dict(src=["checks/c43.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C44": dict(src=["checks/c44.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C45": dict(src=["checks/c45.cpp"], dirs=FULL + ["extra/vfs", "extra/kvstorage"], lib=NETLIB, kind="sched"),
    "C46": dict(src=["checks/c46.cpp"], dirs=FULL + ["extra/vfs", "extra/kvstorage"], lib=NETLIB, kind="sched"),
    "C33": dict(src=["checks/c33.cpp"], dirs=["core/utils", "core/polyfill"], lib=RACELIB, variant="race", kind="race"),
    "C34": dict(src=["checks/c34.cpp"], dirs=["core/crypto", "core/encoding", "core/polyfill"], lib=RACELIB, variant="race", kind="race"),
    "C35": dict(src=["checks/c35.cpp"], dirs=["core/network", "core/utils", "core/polyfill", "core/encoding"], lib=RACELIB, variant="race", kind="race"),
    "C17": dict(src=["checks/c17.cpp"], dirs=["extra/kvstorage", "core/utils", "core/polyfill", "core/encoding"], quarantine=0),
    "C19": dict(src=["checks/c19.cpp"], dirs=["extra/kvstorage", "core/utils", "core/polyfill", "core/encoding"], lib=RACELIB, variant="race", kind="race"),
    "C18": dict(src=["checks/c18.cpp"], dirs=["extra/kvstorage", "core/utils", "core/polyfill", "core/encoding"], lib=["lib/fsim.cpp"], kind="crash", level="fault_enumeration"),
    "C20": dict(src=["checks/c20.cpp"], dirs=["extra/vfs", "core/compression", "core/polyfill"]),
    "C21": dict(src=["checks/c21.cpp"], dirs=["extra/vfs", "core/compression", "core/polyfill"], lib=NETLIB + ["lib/fsim.cpp"]),
    "C22": dict(src=["checks/c22.cpp"], dirs=["extra/vfs", "core/compression", "core/polyfill"], lib=NETLIB),
    "C24": dict(src=["checks/c24.cpp"], dirs=["extra/staticserver", "core/html"] + HTTPDIRS, lib=["lib/fsim.cpp"]),
    "C23": dict(src=["checks/c23.cpp"], dirs=["extra/vfs", "core/compression", "core/polyfill"], lib=RACELIB, variant="race", kind="race"),
    "C15": dict(src=["checks/c15.cpp"], dirs=["core/json", "core/polyfill"], quarantine=0),
    "C16": dict(src=["checks/c16.cpp"], dirs=["core/json", "core/polyfill"]),
    "C29": dict(src=["checks/c29.cpp"], dirs=HTTPDIRS),
    "C30": dict(src=["checks/c30.cpp"], dirs=HTTPDIRS),
    "C37": dict(src=["checks/c37.cpp"], dirs=HTTPDIRS),
    "C26": dict(src=["checks/c26.cpp"], dirs=["core/crypto", "core/encoding", "core/polyfill"]),
    "C31": dict(src=["checks/c31.cpp"], dirs=["core/html"]),
    "C32": dict(src=["checks/c32.cpp"], dirs=["core/polyfill"]),
    "C36": dict(src=["checks/c36.cpp"], dirs=FULL, lib=NETLIB, kind="sched"),
    "C25": dict(src=["checks/c25.cpp"], dirs=["core/encoding"]),
    "C27": dict(src=["checks/c27.cpp"], dirs=["core/compression"]),
    "C28": dict(src=["checks/c28.cpp"], dirs=["core/compression"], quarantine=0),
}
