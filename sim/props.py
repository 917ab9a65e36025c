"""Which scenarios decide which property, and which findings count against it.

profiles: generator -> share of the runs.   kinds: findings of the checker that are
violations of this property.   n: simulated runs of the quick tier.
"""

PROPS = {
    "S01": dict(profiles={"persist": 3, "torn": 1}, phys=False,
                kinds={"load-lost", "load-wrong", "load-garbage", "dump-loaded", "raise", "hang", "status-op",
                       "status-type", "value", "none", "status-edit"}),
    "S02": dict(profiles={"torn": 1}, phys=False,
                kinds={"load-lost", "load-wrong", "load-garbage", "dump-loaded", "raise", "hang"}),
    "S03": dict(profiles={"edit": 2, "rerun": 3}, phys=False, hash=True,
                kinds={"value", "none", "phantom", "status-op", "raise", "hang", "hash"}),
    "S04": dict(profiles={"analysis": 1}, phys=False,
                kinds={"value", "none", "phantom", "status-op", "status-false-ok", "raise", "hang"}),
    "S05": dict(profiles={"shared": 1}, phys=False,
                kinds={"value", "none", "phantom", "load-wrong", "load-garbage", "load-lost", "raise", "hang",
                       "status-op"}),
    "S06": dict(profiles={"edit": 2, "define": 1, "analysis": 2, "recover": 1, "torn": 1, "clear": 1}, phys=False,
                kinds={"clear", "status-edit", "status-op", "status-false-ok", "status-type", "raise", "hang", "phantom",
                       "load-wrong", "load-lost", "dump"}),
    "S07": dict(profiles={"multi": 1}, phys=False,
                kinds={"value", "none", "phantom", "dump", "dump-loaded", "status-edit", "status-op", "load-wrong",
                       "load-garbage", "load-lost", "escape", "ambient", "raise", "hang"}),
    "S08": dict(profiles={"rerun": 2, "edit": 2, "loads": 3}, phys=True, kinds={"phys-disp"},
                also={"value": {"disp", "all"}, "none": {"disp", "all"}, "raise": {"disp", "all", "static"},
                      "status-op": {"static"}}),
    "S09": dict(profiles={"modal": 1}, phys=True,
                kinds={"modal", "value", "none", "phantom", "status-op", "status-false-ok", "raise", "hang"},
                only={"freq", "mode", "disp", "modal", "assemble"}),
    "S10": dict(profiles={"rerun": 1, "edit": 1, "loads": 3, "support": 1}, phys=True,
                kinds={"phys-force", "phys-def"},
                also={k: {"react", "force", "def"} for k in ("value", "none", "raise")}),
    "S11": dict(profiles={"recover": 1}, phys=False,
                kinds={"status-op", "none", "value", "hang", "raise", "dump-loaded", "load-lost", "load-wrong"}),
    "S12": dict(profiles={"snapshot": 1}, phys=False,
                kinds={"value", "none", "phantom", "status-op", "status-false-ok", "raise", "hang"}),
    "S13": dict(profiles={"clear": 2, "tidy": 1, "multi": 1, "torn": 1, "analysis": 1}, phys=False,
                kinds={"escape", "clear", "litter", "none", "phantom", "raise", "hang"}),
    "S14": dict(profiles={"tidy": 1}, phys=False, kinds={"impure", "dump", "value", "none", "raise"}),
    "S15": dict(profiles={"define": 3, "edit": 1}, phys=False,
                kinds={"dump", "dump-loaded", "status-edit", "status-type", "raise", "value", "none"}),
    "S16": dict(profiles={"support": 1}, phys=True,
                kinds={"phys-support", "phys-disp", "phys-force", "value", "none", "status-false-ok", "status-op",
                       "raise"}),
}

# tier -> (simulated runs, wall-clock limit of the exploration)
BUDGET = {"quick": (960, 110.0), "thorough": (20000, 780.0)}
