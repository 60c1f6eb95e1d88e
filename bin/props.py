"""What each property's check runs."""
F = ["f64", "f32"]
def n(q, t=None): return dict(quick=q, thorough=t or q * 10)
PROPS = {
 "C01": dict(bin="c01", models=[dict(name="pid", spec="Pid", mc=["PidMC"], types=F, n=n(1500))]),
 "C02": dict(bin="c02", models=[dict(name="cond", spec="Cond", mc=["CondMC"], types=F, n=n(1500))]),
 "C03": dict(bin="c03", models=[dict(name="window", spec="Window", mc=["WindowMC"], types=F, n=n(1200)),
                                dict(name="savgol", spec="SavGol", types=["f64"], n=n(1500))]),
 "C04": dict(bin="c04", models=[dict(name="recur", spec="Recur", mc=["RecurMC"], types=F, n=n(2000))]),
 "C05": dict(bin="c05", models=[dict(name="rotors", spec="Rotors", mc=["RotorsMC"], types=F, n=n(1500))]),
 "C06": dict(bin="c06", models=[dict(name="gap", spec="Gap", mc=[dict(cfg="GapMC", mode="drive")], types=F, n=n(2000))]),
 "C07": dict(bin="c07", models=[dict(name="grid", spec="Grid", mc=[dict(cfg="GridMC", mode="drive")], types=F, n=n(800))]),
 "C08": dict(bin="c08", models=[dict(name="tree", skip=["jac", "jacs", "twist", "pinv"], spec="Tree", mc=["TreeMC"], types=F, n=n(800))]),
 "C09": dict(bin="c09", models=[dict(name="tree", skip=["layout", "joint", "dist"], spec="Tree", mc=["TreeMC"], types=F, n=n(800))]),
 "C10": dict(bin="c10", models=[dict(name="collide", spec="Collide", mc=[dict(cfg="CollideMC", mode="drive")], types=F, n=n(1000))]),
 "C11": dict(bin="c11", models=[dict(name="ik", spec="Ik", mc=[dict(cfg="IkMC", mode="drive")], types=F, n=n(2500))]),
 "C12": dict(bin="c12", models=[dict(name="odo", spec="Odo", mc=[dict(cfg="OdoMC", mode="drive")], types=F, n=n(2000))]),
 "C13": dict(bin="c13", models=[dict(name="group", spec="Group", mc=[dict(cfg="GroupMC", mode="drive")], types=F, n=n(1200)),
                                dict(name="plane", spec="Plane", mc=[dict(cfg="PlaneMC", mode="drive")], types=F, n=n(1000))]),
 "C14": dict(bin="c14", models=[dict(name="body", spec="Body", mc=[dict(cfg="BodyMC", mode="drive")], types=F, n=n(1500))]),
 "C15": dict(bin="c15", models=[dict(name="linalg", spec="Linalg", mc=[dict(cfg="LinalgMC", mode="drive")], types=["f64"], n=n(1500))]),
 "C16": dict(bin="c16", models=[dict(name="disc", spec="Disc", mc=[dict(cfg="DiscMC", mode="drive")], types=["f64"], n=n(1200))]),
 "C17": dict(bin="c17", models=[dict(name="autodiff", spec="Autodiff", mc=["AutodiffMC"], types=F, n=n(1000))]),
 "C18": dict(bin="c18", models=[dict(name="partials", spec="Partials", mc=[dict(cfg="PartialsMC", mode="drive")], types=["f64"], n=n(2500))]),
 "C19": dict(bin="c19", models=[dict(name="poly", spec="Poly", mc=[dict(cfg="PolyMC", mode="drive")], types=["f64"], n=n(1000))]),
 "C20": dict(bin="c20", models=[dict(name="roots", spec="Roots", mc=[dict(cfg="RootsMC", mode="drive")], types=["f64"], n=n(1000))]),
 "C21": dict(bin="c21", models=[dict(name="pieces", spec="Pieces", mc=[dict(cfg="PiecesMC", mode="drive")], types=["f64"], n=n(1000)),
  dict(name="snap", spec="Snap", mc=[dict(cfg="SnapMC", mode="drive")], types=["f64"], n=n(800))]),
 "C22": dict(bin="c22", models=[dict(name="profile", spec="Profile", mc=[dict(cfg="ProfileMC", mode="drive")], types=["f64", "f32"], n=n(800))]),
 "C23": dict(bin="c23", models=[dict(name="path", spec="Path", mc=[dict(cfg="PathMC", mode="drive")], types=["f64", "f32"], n=n(1000))]),
 "C24": dict(bin="c24", models=[dict(name="quad", spec="Quad", mc=[dict(cfg="QuadMC", mode="drive")], types=["f64"], n=n(1000)), dict(name="quad", spec="Quad", types=["f32"], n=n(600))]),
 "C25": dict(bin="c25", models=[dict(name="ode", spec="Ode", mc=[dict(cfg="OdeMC", mode="drive")], types=["f64"], n=n(1000)), dict(name="ode", spec="Ode", types=["f32"], n=n(500))]),
 "C26": dict(bin="c26", models=[dict(name="search", spec="Search", mc=[dict(cfg="SearchMC", mode="drive")], types=["f64"], n=n(400)), dict(name="search", spec="Search", types=["f32"], n=n(200))]),
 "C27": dict(bin="c27", models=[dict(name="fit", spec="Fit", mc=[dict(cfg="FitMC", mode="drive")], types=["f64"], n=n(500)), dict(name="fit", spec="Fit", types=["f32"], n=n(300))]),
 "C32": dict(bin="c32", models=[dict(name="pcg", spec="Pcg", mc=[dict(cfg="PcgMC", mode="drive")], types=["f64"], n=n(500))]),
 "C28": dict(bin="c28", models=[dict(name="kf", spec="Kf", mc=[dict(cfg="KfMC", mode="drive")], types=["f64"], n=n(300)), dict(name="kf", spec="Kf", types=["f32"], n=n(150))]),
 "C29": dict(bin="c29", models=[dict(name="esk", spec="Esk", mc=[dict(cfg="EskMC", mode="drive")], types=["f64"], n=n(60)), dict(name="esk", spec="Esk", types=["f32"], n=n(30))]),
 "C30": dict(bin="c30", models=[dict(name="lean", spec="Lean", mc=[dict(cfg="LeanMC", mode="drive")], types=["f64"], n=n(250)), dict(name="lean", spec="Lean", types=["f32"], n=n(120))]),
 "C31": dict(bin="c31", models=[dict(name="cloud", spec="Cloud", mc=[dict(cfg="CloudMC", mode="drive")], types=["f64"], n=n(1000)), dict(name="cloud", spec="Cloud", types=["f32"], n=n(600))]),
}
