"""What each property's check runs.  A plan is a list of jobs:
  design: TLC on the specification alone
  proof:  TLAPS on theorems about the specification's operators, for instants and bounds of any number and size
  replay: TLC prints the specification's transitions, the harness executes them on the real
          code, TLC checks what was recorded
  record: the harness makes seeded random histories on the real code, TLC checks them
"""

LEVELS = {}


def q(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def design(name, module, cfg, **kw):
    return dict(kind="design", name=name, module=module, cfg=cfg, **kw)


def proof(name, module):
    return dict(kind="proof", name=name, module=module)


def win_gen(name, ops, n, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenWindows", cfg="GenWindows.cfg", env={"OPS": ops, "NATOMS": str(n)}),
                args=["win-replay", "--n", str(n)], trace="TraceWindows", tenv={"NATOMS": str(n)}, **kw)


def win_edge(name, ops, n, **kw):
    """the same transitions where the extreme atoms hold no finite instant"""
    return dict(kind="replay", name=name, gen=dict(module="GenWindows", cfg="GenWindows.cfg", env={"OPS": ops, "NATOMS": str(n)}),
                args=["win-edge", "--n", str(n)], trace="TraceWindows", tenv={"NATOMS": str(n), "EDGE": "1"}, **kw)


def win_rec(name, ops, n, hists, length, **kw):
    return dict(kind="record", name=name, args=["win-record", "--n", str(n), "--ops", ops, "--hists", str(hists), "--len", str(length)],
                trace="TraceWindows", tenv={"NATOMS": str(n)}, **kw)


def win_x(name, cmd, n, hists, **kw):
    return dict(kind="record", name=name, args=[cmd, "--n", str(n), "--hists", str(hists)],
                trace="TraceWindows", tenv={"NATOMS": str(n)}, **kw)


def win_many(t, ops):
    """windows of up to 75, and up to 270, parts"""
    return [win_rec("histories of up to %d parts" % (n // 2), ops, n, q(t, k, 10 * k), 12, seed=n) for n, k in ((150, 40), (540, 15))]


def win_manyx(t, name, cmd):
    return [win_x("%s of up to %d parts" % (name, n // 2), cmd, n, q(t, k, 8 * k), seed=n) for n, k in ((150, 80), (540, 24))]


def win_design(t):
    return design("Windows laws", "Windows", q(t, "MCWindows.cfg", "MCWindows7.cfg"))


# windows at any magnitude
def b_design(t):
    return design("windows at any magnitude", "MCBigWindows", "MCBigWindows.cfg")


def b_gen(name, ops, rich="0", **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenBigWindows", cfg="GenBigWindows.cfg", env={"OPS": ops, "RICH": rich}),
                args=["big-replay"], trace="TraceBigWindows", **kw)


def b_rec(name, ops, hists, length=8, **kw):
    return dict(kind="record", name=name, args=["big-record", "--ops", ops, "--hists", str(hists), "--len", str(length)],
                trace="TraceBigWindows", **kw)


SETOPS = "union,inter,excl,compl,tb,ta"


def C01(t):
    return [proof("window theorems", "WindowProof"), win_design(t), win_gen("all set transitions", "set", q(t, 5, 6)), win_gen("builders", "build", 7),
            win_edge("sets at the range limits", "set", q(t, 5, 6)), win_gen("equality", "eqs", q(t, 5, 6)),
            win_rec("set histories", SETOPS + ",eq", 10, q(t, 150, 2000), q(t, 15, 30)), win_x("collects", "win-collect", 9, q(t, 1500, 20000)),
            win_rec("many-part set histories", SETOPS + ",eq", 60, q(t, 40, 600), 15, seed=3),
            n_rec("numeric histories", "sum,diff,neg,mul,div,mulq", q(t, 400, 4000), 10),
            b_gen("ladder set algebra", "union", q(t, "0", "1")), b_rec("set histories at any magnitude", "union,inter,compl,excl,tb,sum,mul,collect", q(t, 500, 8000))] + win_many(t, SETOPS + ",eq") + win_manyx(t, "collects", "win-collect") + n_many(t, "sum,diff,neg,mul,div,mulq")


def C02(t):
    return [win_design(t), win_gen("union transitions", "union", q(t, 6, 7)), win_edge("union transitions at the range limits", "union", q(t, 6, 7)), win_rec("union histories", "union,union,union,inter,compl", 11, q(t, 200, 3000), 15),
            win_rec("many-part union histories", "union,union,inter,compl", 60, q(t, 50, 800), 12, seed=3),
            b_design(t), b_gen("ladder unions", "union", q(t, "0", "1")), b_rec("union histories at any magnitude", "union,union,inter,compl", q(t, 800, 10000))] + win_many(t, "union,union,inter,compl")


def C03(t):
    return [win_design(t), win_gen("intersection transitions", "inter", q(t, 6, 7)), win_edge("intersection transitions at the range limits", "inter", q(t, 6, 7)), win_rec("intersection histories", "inter,inter,union,compl", 11, q(t, 200, 3000), 15),
            win_rec("many-part intersection histories", "inter,inter,union,compl", 60, q(t, 50, 800), 12, seed=3),
            b_design(t), b_gen("ladder intersections", "inter", q(t, "0", "1")), b_rec("intersection histories at any magnitude", "inter,inter,union,compl", q(t, 800, 10000))] + win_many(t, "inter,inter,union,compl")


def C04(t):
    return [win_design(t), win_gen("complement transitions", "compl", q(t, 6, 7)), win_edge("complement transitions at the range limits", "compl", q(t, 6, 7)), win_rec("exclusion histories", "excl,excl,compl,union", 11, q(t, 200, 3000), 15),
            win_rec("many-part exclusion histories", "excl,compl,union", 60, q(t, 50, 800), 12, seed=3),
            b_design(t), b_gen("ladder complements", "compl", q(t, "0", "1")), b_rec("exclusion histories at any magnitude", "excl,compl,union,compl2", q(t, 800, 10000))] + win_many(t, "excl,compl,union")


def C05(t):
    return [win_design(t), win_gen("one-operator chains", "lazy", q(t, 5, 6)), win_edge("chains at the range limits", "lazy", q(t, 5, 6)), win_x("random chains", "win-lazy", 9, q(t, 2500, 40000)),
            win_x("many-part chains", "win-lazy", 60, q(t, 400, 5000), seed=3),
            n_chain("moving chains", q(t, 2500, 40000)),
            b_design(t), b_gen("ladder chains", "lazy", q(t, "0", "1")), b_rec("chains at any magnitude", "lazy,chain,union", q(t, 800, 10000))] + win_manyx(t, "chains", "win-lazy")


def C06(t):
    return [win_design(t), win_gen("truncations", "cut", 7), win_edge("truncations at the range limits", "cut", 7), win_rec("truncation histories", "tb,ta,union,compl", 11, q(t, 300, 3000), 15),
            win_rec("many-part truncation histories", "tb,ta,union,union,compl", 60, q(t, 50, 800), 12, seed=3),
            b_design(t), b_gen("ladder truncations", "cut", q(t, "0", "1")), b_rec("truncation histories at any magnitude", "tb,ta,union,compl", q(t, 800, 10000))] + win_many(t, "tb,ta,union,compl")


def C07(t):
    return [win_design(t), win_gen("relations", "rel", q(t, 5, 7)), win_rec("relation histories", "has,ov,eq,union,inter,compl", 11, q(t, 300, 3000), 15),
            win_rec("many-part relation histories", "has,ov,eq,union,inter,compl", 60, q(t, 50, 800), 12, seed=3),
            b_gen("ladder relations", "rel", q(t, "0", "1")), b_rec("relations at any magnitude", "has,ov,eq,union,compl", q(t, 800, 10000))] + win_many(t, "has,ov,eq,union,compl")


def C08(t):
    return [win_design(t), win_gen("shapes", "shape", q(t, 8, 10)), n_gen("lengths", "len", q(t, 4, 6), 0),
            n_rec("lengths of histories", "len,sum,diff,neg", q(t, 300, 3000), 10),
            b_gen("ladder shapes", "shape", q(t, "0", "1")), b_rec("shapes at any magnitude", "shape,len,union,compl", q(t, 800, 10000))] + win_manyx(t, "shapes", "win-shape")


def C09(t):
    return [win_design(t), design("precedence laws", "Windows", "MCOrder.cfg"), win_gen("orders", "ord", q(t, 6, 7)),
            win_rec("order histories", "ord,ord,union,inter,tb,ta", 11, q(t, 300, 3000), 15),
            win_rec("many-part order histories", "ord,ord,union,inter,compl,tb,ta", 60, q(t, 50, 800), 12, seed=3),
            b_gen("ladder orders", "ord", q(t, "0", "1")), b_rec("orders at any magnitude", "ord,ord,union,inter", q(t, 800, 10000))] + win_many(t, "ord,ord,union,compl,tb,ta")


def C10(t):
    return [win_design(t), win_gen("builders", "build", q(t, 9, 12)), win_x("collects", "win-collect", 9, q(t, 2000, 30000)), win_x("many-part collects", "win-collect", 60, q(t, 300, 4000), seed=3),
            n_gen("centred and enlarged", "derive", q(t, 4, 6), 0), n_rec("random centred and enlarged", "around,grow,sum,diff", q(t, 300, 3000), 10),
            b_gen("ladder builders", "build", q(t, "0", "1")), b_gen("ladder collects", "collect", q(t, "0", "1")), b_gen("ladder enlargements", "grow", q(t, "0", "1")), b_rec("builders at any magnitude", "build,collect,around,grow", q(t, 800, 10000))] + win_manyx(t, "collects", "win-collect")


# ------------------------------------------------------------------ graph
def g_design(t):
    return design("Graph laws", "MCGraph", q(t, "MCGraph.cfg", "MCGraphFull.cfg"))


def g_gen(name, ops, keep, wide="0", n=3, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenGraph", cfg="GenGraph.cfg", env={"OPS": ops, "NMAX": str(n), "WIDE": wide}),
                args=["graph-replay", "--keep", str(keep)], trace="TraceGraph", **kw)


def g_rec(name, ops, n, hists, length, **kw):
    return dict(kind="record", name=name, args=["graph-record", "--n", str(n), "--ops", ops, "--hists", str(hists), "--len", str(length)],
                trace="TraceGraph", **kw)


GALL = "add,add,add,add,ext,merge,size,fit,reset,trim,same"


def g_huge(t, ops, *sizes):
    """more than 64, and more than 256, instants"""
    out = []
    for lo, hi, quick, thorough, length in ((66, 70, 3, 20, 10), (258, 260, 2, 8, 5)):
        if lo in sizes:
            out.append(dict(kind="record", name="networks of %d to %d instants" % (lo, hi), trace="TraceGraph", seed=lo,
                            args=["graph-record", "--nmin", str(lo), "--n", str(hi), "--ops", ops, "--hists", str(q(t, quick, thorough)), "--len", str(length)]))
    return out


def C19(t):
    return [proof("propagation theorems", "GraphProof"), g_design(t), design("network laws, two constraints", "MCGraph", "MCGraphPairs.cfg"), g_gen("additions", "add", q(t, 8, 1)), g_gen("sizes", "size", q(t, 1, 1)),
            g_rec("histories", GALL, 6, q(t, 300, 4000), 25), g_rec("long histories", "add,add,add,ext,size", 9, q(t, 60, 600), 60, seed=1),
            g_rec("large networks", "add,add,add,add,ext,merge,size", 20, q(t, 12, 150), 40, seed=2)] + g_huge(t, "add,add,ext,merge,size", 66, 258)


def C20(t):
    return [proof("propagation theorems", "GraphProof"), g_design(t), g_gen("additions", "add", q(t, 8, 1)), g_gen("bulk additions", "bulk", q(t, 40, 2)),
            g_rec("histories", GALL + ",collect", 5, q(t, 400, 5000), 25), g_rec("unruly histories", "add,ext,ext,merge,size,size", 4, q(t, 300, 4000), 20, seed=1),
            g_rec("large networks", "add,add,add,ext,merge", 18, q(t, 12, 150), 40, seed=2)] + g_huge(t, "add,add,ext,merge", 66, 258)


def C21(t):
    return [g_design(t), g_gen("additions", "add", q(t, 6, 1)), g_gen("bulk additions", "bulk", q(t, 60, 4)),
            g_rec("histories", GALL, 5, q(t, 400, 5000), 25)] + g_huge(t, "add,ext,merge", 66)


def C22(t):
    return [g_design(t), g_gen("bulk additions", "bulk", q(t, 30, 2)), g_gen("merges", "merge", q(t, 12, 1)), g_gen("relisting", "list", 1),
            g_rec("histories", "add,ext,ext,merge,merge,collect,relist,relist,size", 6, q(t, 300, 4000), 20)] + g_huge(t, "ext,merge,relist", 66)


def C23(t):
    return [g_design(t), g_gen("sizes", "size", q(t, 1, 1)), g_rec("histories", "add,add,add,ext,size,size,fit,reset,trim,same", 7, q(t, 500, 6000), 30)] + g_huge(t, "add,ext,size,size,fit,reset,trim,same", 66, 258)


def C24(t):
    return [g_design(t), g_gen("listings", "list", 1, wide=q(t, "0", "1")), g_rec("histories", "add,add,ext,merge,size,list,list", 7, q(t, 250, 3000), 25),
            g_rec("large networks", "add,ext,ext,merge,list", 15, q(t, 12, 150), 20, seed=2)] + g_huge(t, "ext,ext,list,merge", 66)


# ----------------------------------------------------------------- agenda
def s_design(t):
    return design("agenda laws, 2 instants", "MCScheduler", "MCScheduler.cfg")


def s_design3(t):
    return design("agenda laws, 3 instants", "MCScheduler", "MCScheduler3.cfg")


def s_gen(name, n, rich, keep, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenScheduler", cfg="GenScheduler.cfg", env={"NI": str(n), "RICH": rich}),
                args=["sched-replay", "--keep", str(keep)], trace="TraceScheduler", **kw)


def s_rec(name, ops, n, hists, length, **kw):
    return dict(kind="record", name=name, args=["sched-record", "--n", str(n), "--ops", ops, "--hists", str(hists), "--len", str(length)],
                trace="TraceScheduler", **kw)


def s_huge(t, ops):
    """more than 64, and more than 256, instants"""
    return [dict(kind="record", name="agendas of %d to %d instants" % (lo, hi), trace="TraceScheduler", seed=lo,
                 args=["sched-record", "--nmin", str(lo), "--n", str(hi), "--ops", ops, "--hists", str(q(t, quick, thorough)), "--len", str(length)])
            for lo, hi, quick, thorough, length in ((66, 70, 6, 60, 9), (258, 260, 1, 8, 7))]


def s_cascade(t, quick=30, **kw):
    """dropping one date drops another, and so on round the instants many times"""
    return dict(kind="record", name="cascades", args=["sched-cascade", "--n", "6", "--hists", str(q(t, quick, 500)), "--len", "4"], trace="TraceScheduler", **kw)


def C25(t):
    return [proof("agenda theorems", "AgendaProof"), s_design(t), s_design3(t), s_gen("two instants", 2, "1", q(t, 2, 1)), s_gen("three instants", 3, "0", q(t, 4, 1)),
            s_rec("histories", "retain,retain,remove,remove,deadline,startline", 5, q(t, 1500, 20000), 10),
            s_rec("large agendas", "retain,retain,remove,remove,deadline,startline", 16, q(t, 150, 2000), 12, seed=3),
            dict(kind="record", name="requests without solution", args=["sched-traps", "--n", "4", "--hists", str(q(t, 250, 3000)), "--len", "6"], trace="TraceScheduler"),
            s_rec("sparse histories", "sparse,sparse,pick,pick,retain,deadline", 5, q(t, 300, 4000), 10, seed=2)] + s_huge(t, "retain,retain,remove,deadline") + [s_rec("many windows", "comb,comb,remove,deadline", 4, q(t, 60, 800), 8, seed=4), s_cascade(t)]


def C26(t):
    return [proof("agenda theorems", "AgendaProof"), s_design(t), s_design3(t), s_gen("two instants", 2, "1", q(t, 2, 1)), s_gen("three instants", 3, "0", q(t, 4, 1)),
            s_rec("histories", "retain,retain,remove,remove,deadline", 5, q(t, 1500, 20000), 12),
            s_rec("large agendas", "retain,retain,remove,remove,deadline", 16, q(t, 150, 2000), 12, seed=3),
            dict(kind="record", name="requests without solution", args=["sched-traps", "--n", "4", "--hists", str(q(t, 250, 3000)), "--len", "6"], trace="TraceScheduler"),
            s_rec("sparse histories", "sparse,sparse,pick,pick,retain,deadline", 5, q(t, 300, 4000), 10, seed=2)] + s_huge(t, "retain,remove") + [s_rec("many windows", "comb,comb,pick,retain", 4, q(t, 60, 800), 8, seed=4), s_cascade(t, 20, seed=5)]


def C27(t):
    return [proof("agenda theorems", "AgendaProof"), s_design(t), s_design3(t), s_gen("two instants", 2, "1", q(t, 2, 1)), s_gen("three instants", 3, "0", q(t, 4, 1)),
            s_rec("histories", "retain,remove,deadline,startline,deadline,startline,look", 5, q(t, 1500, 20000), 12),
            s_rec("large agendas", "retain,remove,deadline,startline,deadline,startline,look", 16, q(t, 150, 2000), 12, seed=3)] + s_huge(t, "deadline,startline,look,retain") + [s_rec("many windows", "comb,comb,deadline,startline,look", 4, q(t, 60, 800), 8, seed=4), s_cascade(t, 20, seed=6)]


# ----------------------------------------------------------- numeric windows
def n_design(t):
    return design("numeric window laws", "MCSpans", "MCSpans.cfg")


def n_gen(name, ops, r, rb, keep=1, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenSpans", cfg="GenSpans.cfg", env={"OPS": ops, "RANGE": str(r), "RANGEB": str(rb)}),
                args=["span-replay", "--keep", str(keep)], trace="TraceSpans", **kw)


def n_rec(name, ops, hists, length, **kw):
    return dict(kind="record", name=name, args=["span-record", "--ops", ops, "--hists", str(hists), "--len", str(length)], trace="TraceSpans", **kw)


def n_many(t, ops):
    """windows of 80, and of 300, parts"""
    return [dict(kind="record", name="windows of %d parts" % n, trace="TraceSpans", seed=n,
                 args=["span-record", "--ops", ops, "--hists", str(q(t, 40, 400)), "--len", "8", "--parts", str(n)]) for n in (80, 300)]


def n_chain(name, hists, **kw):
    return dict(kind="record", name=name, args=["span-chain", "--hists", str(hists)], trace="TraceSpans", **kw)


def C11(t):
    return [proof("window theorems", "WindowProof"), n_design(t), n_gen("translations", "move", q(t, 2, 3), q(t, 1, 2)), n_rec("histories", "sum,diff,sum,diff,neg,div", q(t, 700, 8000), 10),
            b_gen("ladder translations", "move", q(t, "0", "1")), b_rec("translations at any magnitude", "sum,diff,neg,union", q(t, 800, 10000))] + n_many(t, "sum,diff,neg")


def C12(t):
    return [n_design(t), n_gen("scalings", "scale", q(t, 3, 4), 0), n_gen("stretched scalings", "stretch", q(t, 2, 3), 0), n_rec("histories", "mul,div,mulq,divq,div,mul,divq,sum,neg", q(t, 700, 8000), 10),
            b_gen("ladder scalings", "scale", q(t, "0", "1")), b_rec("scalings at any magnitude", "mul,div,union,sum", q(t, 800, 10000))] + n_many(t, "mul,div,mulq,divq,neg")


# ------------------------------------------------------------- single values
def v_design(t):
    return [design("wide integers", "MCWide", q(t, "MCWideQuick.cfg", "MCWide.cfg")), design("time value laws", "MCNumbers", q(t, "MCNumbersQuick.cfg", "MCNumbers.cfg"))]


def v_gen(name, ops, rich="0", keep=1, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenNumbers", cfg="GenNumbers.cfg", env={"OPS": ops, "RICH": rich}),
                args=["num-replay", "--keep", str(keep)], trace="TraceNumbers", **kw)


def v_rec(name, ops, hists, length, **kw):
    return dict(kind="record", name=name, args=["num-record", "--ops", ops, "--hists", str(hists), "--len", str(length)], trace="TraceNumbers", **kw)


def C13(t):
    return v_design(t) + [v_gen("boundary arithmetic", "arith", q(t, "0", "1")), v_gen("boundary comparisons", "cmp", q(t, "0", "1"), q(t, 4, 1)),
                          v_rec("histories", "add,sub,add,sub,neg,after,before,class,cmp,sum,mul,div", q(t, 6000, 60000), 12)]


def C14(t):
    return v_design(t) + [v_gen("boundary scalings", "scale", q(t, "0", "1")), v_rec("histories", "mul,div,mul,div,add,neg", q(t, 6000, 60000), 10),
                          v_gen("float scalings", "float", "0", q(t, 2, 1)), v_rec("float histories", "mulf,divf,mulf,divf,neg", q(t, 4000, 40000), 8)]


def C15(t):
    return v_design(t) + [v_gen("boundary roundings", "round", q(t, "0", "1")), v_rec("histories", "floor,ceil,add,sub", q(t, 6000, 60000), 10)]


def C16(t):
    return v_design(t) + [v_gen("unit constructors", "unit", q(t, "0", "1")), v_gen("truncations and readings", "trunc", "1"),
                          v_rec("histories", "unit,unit,trunc,read,add,sub", q(t, 8000, 80000), 10)]


def C17(t):
    return v_design(t) + [v_gen("outwards", "out", "1"), v_gen("inwards", "fromout", "1"), v_gen("order", "mono", "1"),
                          v_rec("histories", "chrono,std,date,loop,mono,fromout,fromout,monoout,now,add,sub", q(t, 6000, 60000), 10)]


def C18(t):
    return v_design(t) + [v_gen("boundary sequences", "seq", q(t, "0", "1"), q(t, 4, 1)),
                          dict(kind="record", name="random sequences", args=["num-seqs", "--hists", str(q(t, 4000, 40000))], trace="TraceNumbers")]


def r_design():
    return [design("texts read back", "MCRender", "MCRender.cfg")]


def r_gen(name, ops, rich="0", keep=1, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenRender", cfg="GenRender.cfg", env={"OPS": ops, "RICH": rich}),
                args=["text-replay", "--keep", str(keep)], trace="TraceRender", **kw)


def r_rec(name, cmd, hists, *more, **kw):
    return dict(kind="record", name=name, args=[cmd, "--hists", str(hists)] + list(more), trace="TraceRender", **kw)


def C28(t):
    return r_design() + [r_gen("all windows over a ladder", "win", q(t, "0", "1"), q(t, 1, 4)), r_gen("single values", "val"),
                         r_rec("random texts", "text-record", q(t, 3000, 30000), "--n", "5")] + [r_rec("windows of many parts", "text-record", q(t, 30, 300), "--n", "40", seed=4),
                         r_rec("windows of more than a hundred parts", "text-record", q(t, 4, 40), "--n", "130", seed=5)]


def C29(t):
    v = {"serde": True}
    return [r_gen("all windows over a ladder", "win", q(t, "0", "1"), q(t, 1, 4), variant=v), r_gen("single values", "val", variant=v),
            r_rec("random values", "text-record", q(t, 3000, 30000), "--n", "5", variant=v)] + [r_rec("windows of many parts", "text-record", q(t, 30, 300), "--n", str(n), seed=4, variant=v) for n in (80, 300)] + [r_rec("windows of more than a thousand parts", "text-record", q(t, 3, 30), "--n", "1300", seed=5, variant=v)]


def C30(t):
    return r_design() + [r_rec("networks and agendas", "text-nets", q(t, 500, 5000), "--n", "5"),
                         r_rec("larger networks", "text-nets", q(t, 40, 400), "--n", "9", seed=7)] + [r_rec("networks of 34 to 36 instants", "text-nets", q(t, 2, 12), "--nmin", "34", "--n", "36", seed=34)]


def e_gen(name, ops, keep=1, **kw):
    return dict(kind="replay", name=name, gen=dict(module="GenEndless", cfg="GenEndless.cfg", env={"OPS": ops}),
                args=["endless-replay", "--keep", str(keep)], trace="TraceEndless", **kw)


def C31(t):
    return [design("iterator machines", "Iterators", q(t, "MCIterators.cfg", "MCIterators7.cfg")),
            e_gen("one operator", "one"), e_gen("two operators", "two", q(t, 2, 1)), e_gen("mixed chains", "mix", q(t, 2, 1)),
            dict(kind="record", name="random chains", args=["endless-record", "--hists", str(q(t, 2500, 30000))], trace="TraceEndless")]


def with_many_parts(jobs):
    """histories at any magnitude, again with windows of up to 30 parts"""
    out = []
    for j in jobs:
        out.append(j)
        if j["kind"] == "record" and j["args"][0] == "big-record":
            a = list(j["args"])
            h = a.index("--hists") + 1
            a[h] = str(max(60, int(a[h]) // 8))
            out.append(dict(j, name=j["name"] + ", many parts", args=a + ["--parts", "30"], seed=j.get("seed", 0) + 30))
    return out


def with_release(jobs):
    """the first generated and the first random histories again on the library as it is released:
    optimised, without debugging assertions nor overflow checks"""
    out = list(jobs)
    for kind in ("replay", "record"):
        for j in jobs:
            if j["kind"] == kind:
                v = dict(j.get("variant", {}), release=True)
                out.append(dict(j, name=j["name"] + ", optimised build", variant=v, seed=j.get("seed", 0) + 60))
                break
    return out


def plan(f):
    return lambda t: with_release(with_many_parts(f(t)))


PLANS = {k: plan(v) for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}
